// SRC: @core
// BOUND: ==/!= and NaN handling: every float bit pattern; isNear: components in [-10,10], tolerance in [1e-4,2], margin 1e-5 around the tolerance
#include "types.h"
template <class T> static void eq() {
  const T a = rawv<T>("a"), b = rawv<T>("b");
  bool all = true;
  for (int i = 0; i < N<T>::n; ++i) all = all & (get(a, i) == get(b, i));
  vf_assert((a == b) == all, "a == b exactly when every component is equal");
  vf_assert((a != b) == !all, "a != b is the negation");
}
VF_B(eqPosition2D) { vf_lazy(1); eq<Position2D>(); }
VF_B(eqPose2D) { vf_lazy(1); eq<Pose2D>(); }
VF_B(eqPosition3D) { vf_lazy(1); eq<Position3D>(); }
VF_B(eqPosition6D) { vf_lazy(1); eq<Position6D>(); }
VF_B(eqRotation3D) { vf_lazy(1); eq<Rotation3D>(); }
VF_B(eqVelocity3D) { vf_lazy(1); eq<Velocity3D>(); }
VF_B(eqVelocity6D) { vf_lazy(1); eq<Velocity6D>(); }
VF_B(eqQuaternion) { vf_lazy(1); eq<Quaternion>(); }
VF_B(eqRotation) { vf_lazy(1); eq<Rotation>(); }
VF_B(eqTransform) { vf_lazy(1); eq<Transform>(); }
// one component differs by d from an arbitrary value, the others by less than the tolerance
template <class T> static void near(bool sign) {
  const float e = vf_real("eps", 1e-4, 2);
  const T a = anyv<T>("a", 10);
  T b;
  const int far = vf_choice("far", 3);  // 0: all near; 1, 2: one component too far above / below
  for (int i = 0; i < N<T>::n; ++i) {
    at(b, i) = vf_real("b", -10, 10);
    const double d = (double)get(a, i) - get(b, i);
    vf_assume(d <= (far == 2 ? 0 : e - 1e-5) && d >= (far == 1 ? 0 : 1e-5 - e));
  }
  if (!far) {
    vf_assert(a.isNear(b, e), "near when every component differs by less than the tolerance");
    vf_assert(b.isNear(a, e), "isNear is symmetric");
    vf_assert(a.isNear(a, e), "isNear is reflexive");
    return;
  }
  const int k = vf_choice("component", N<T>::n);
  at(b, k) = vf_real("c", -10, 10);
  const double d = (double)get(a, k) - get(b, k), s = (double)get(a, k) + get(b, k);
  if (far == 1) vf_assume(d >= e + 1e-5); else vf_assume(d <= -e - 1e-5);
  if (sign) vf_assume(s >= e + 1e-5);   // not near the opposite quaternion either
  vf_assert(!a.isNear(b, e), "not near when one component differs by more than the tolerance");
  vf_assert(!b.isNear(a, e), "not near when one component differs by more than the tolerance");
}
VF_R(nearPosition2D) { vf_lazy(1); near<Position2D>(false); }
VF_R(nearPose2D) { vf_lazy(1); near<Pose2D>(false); }
VF_R(nearPosition3D) { vf_lazy(1); near<Position3D>(false); }
VF_R(nearPosition6D) { vf_lazy(1); near<Position6D>(false); }
VF_R(nearRotation3D) { vf_lazy(1); near<Rotation3D>(false); }
VF_R(nearVelocity3D) { vf_lazy(1); near<Velocity3D>(false); }
VF_R(nearVelocity6D) { vf_lazy(1); near<Velocity6D>(false); }
VF_R(nearQuaternion) { vf_lazy(1); near<Quaternion>(true); }
VF_R(nearRotation) { vf_lazy(1); near<Rotation>(false); }
VF_R(nearTransform) { vf_lazy(1); near<Transform>(false); }
VF_R(nearOpposite) {
  const float e = vf_real("eps", 1e-4, 2);
  const Quaternion a = anyv<Quaternion>("a", 10), b(-a.w, -a.x, -a.y, -a.z);
  vf_assert(a.isNear(b, e), "a quaternion is near its opposite, the same rotation");
}
// components that differ only in sign: near only when all signs agree or all are opposite
VF_R(nearSigns) {
  const float e = vf_real("eps", 1e-4, 0.1);
  const int sa = vf_choice("signs", 8), sb = vf_choice("relsigns", 16);
  float a[4], b[4];
  bool dis = false;
  for (int i = 0; i < 4; ++i) {
    const float m = vf_real("m", 0.25, 10);
    const float d = vf_real("d", -0.1, 0.1);
    vf_assume(d <= e - 1e-5 && d >= 1e-5 - e);
    a[i] = (sa >> i) & 1 ? -m : m;
    b[i] = (sb >> i) & 1 ? -(a[i] + d) : a[i] + d;
  }
  const Quaternion p(a[0], a[1], a[2], a[3]), q(b[0], b[1], b[2], b[3]);
  if (sb == 0 || sb == 15) vf_assert(p.isNear(q, e), "near when the components agree up to a common sign");
  else vf_assert(!p.isNear(q, e), "not near when only some signs agree");
}
template <class T> static void nan() {
  T a, b;
  for (int i = 0; i < N<T>::n; ++i) { at(a, i) = vf_float("a"); at(b, i) = vf_float("b"); }
  const int k = vf_choice("component", N<T>::n);
  vf_assume(get(a, k) != get(a, k));
  const float e = vf_float("eps");
  vf_assert(!a.isNear(b, e), "a value with a NaN component is near nothing");
  vf_assert(!b.isNear(a, e), "nothing is near a value with a NaN component");
}
VF_B(nanPosition2D) { vf_lazy(1); nan<Position2D>(); }
VF_B(nanPose2D) { vf_lazy(1); nan<Pose2D>(); }
VF_B(nanPosition3D) { vf_lazy(1); nan<Position3D>(); }
VF_B(nanPosition6D) { vf_lazy(1); nan<Position6D>(); }
VF_B(nanRotation3D) { vf_lazy(1); nan<Rotation3D>(); }
VF_B(nanVelocity3D) { vf_lazy(1); nan<Velocity3D>(); }
VF_B(nanVelocity6D) { vf_lazy(1); nan<Velocity6D>(); }
VF_B(nanQuaternion) { vf_lazy(1); nan<Quaternion>(); }
VF_B(nanRotation) { vf_lazy(1); nan<Rotation>(); }
VF_B(nanTransform) { vf_lazy(1); nan<Transform>(); }
// the default tolerance is 1e-4
template <class T> static void deflt() {
  T a = anyv<T>("a", 1), b = a;
  const int k = vf_choice("component", N<T>::n);
  at(a, k) = 0.5f;
  at(b, k) = 0.5f + 9.5e-5f;
  vf_assert(a.isNear(b), "within the default tolerance");
  at(b, k) = 0.5f + 1.06e-4f;
  vf_assert(!a.isNear(b), "beyond the default tolerance");
}
VF_R(defaultSmall) { deflt<Position2D>(); deflt<Pose2D>(); }
VF_R(default3) { const int t = vf_choice("type", 4); if (t == 0) deflt<Position3D>(); else if (t == 1) deflt<Rotation3D>(); else if (t == 2) deflt<Velocity3D>(); else deflt<Quaternion>(); }
VF_R(default6) { const int t = vf_choice("type", 4); if (t == 0) deflt<Position6D>(); else if (t == 1) deflt<Velocity6D>(); else if (t == 2) deflt<Rotation>(); else deflt<Transform>(); }
