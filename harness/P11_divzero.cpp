// SRC: @core
// BOUND: every float bit pattern for operands and divisors; null vectors with components of either sign; accepted vectors: every direction, norms in [1,2] times 1, 2^-8 or 2^8
#include "types.h"
template <class F> static bool throws(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
template <class T> static void div() {
  const T a = rawv<T>("a");
  const float d = vf_float("d");
  const bool z = d == 0;
  T b = a, q;
  for (int i = 0; i < N<T>::n; ++i) at(q, i) = 12345;
  const int how = vf_choice("form", 2);
  const bool th = how ? throws([&] { q = a / d; }) : throws([&] { b /= d; });
  vf_assert(th == z, "dividing throws exactly when the divisor is zero");
  if (!th) return;
  for (int i = 0; i < N<T>::n; ++i) {
    vf_same(get(b, i), get(a, i), "a refused division leaves its operand unchanged");
    vf_same(get(q, i), 12345, "a refused division leaves its operand unchanged");
  }
}
VF_B(divPosition2D) { vf_lazy(1); div<Position2D>(); }
VF_B(divPose2D) { vf_lazy(1); div<Pose2D>(); }
VF_B(divPosition3D) { vf_lazy(1); div<Position3D>(); }
VF_B(divPosition6D) { vf_lazy(1); div<Position6D>(); }
VF_B(divRotation3D) { vf_lazy(1); div<Rotation3D>(); }
VF_B(divVelocity3D) { vf_lazy(1); div<Velocity3D>(); }
VF_B(divVelocity6D) { vf_lazy(1); div<Velocity6D>(); }
VF_B(divQuaternion) { vf_lazy(1); div<Quaternion>(); }
template <class T> static T zeros() {
  T v;
  const int s = vf_choice("sign", 1 + N<T>::n);
  for (int i = 0; i < N<T>::n; ++i) at(v, i) = i < s ? -0.0f : 0.0f;
  return v;
}
VF_B(nullPosition2D) { const Position2D v = zeros<Position2D>(); vf_assert(throws([&] { v.normalize(); }) && throws([&] { normalize(v); }), "normalising a null vector throws"); }
VF_B(nullPosition3D) { const Position3D v = zeros<Position3D>(); vf_assert(throws([&] { v.normalize(); }) && throws([&] { normalize(v); }), "normalising a null vector throws"); }
VF_B(nullPosition6D) { const Position6D v = zeros<Position6D>(); vf_assert(throws([&] { normalize(v); }), "normalising a null vector throws"); }
VF_B(nullVelocity3D) { const Velocity3D v = zeros<Velocity3D>(); vf_assert(throws([&] { v.normalize(); }) && throws([&] { normalize(v); }), "normalising a null vector throws"); }
VF_B(nullVelocity6D) { const Velocity6D v = zeros<Velocity6D>(); vf_assert(throws([&] { v.normalize(); }) && throws([&] { normalize(v); }), "normalising a null vector throws"); }
VF_B(nullQuaternion) { const Quaternion v = zeros<Quaternion>(); vf_assert(throws([&] { v.normalize(); }) && throws([&] { normalize(v); }), "normalising a null vector throws"); }
// a 2D pose is refused when its position is null, whatever its orientation
VF_B(nullPose2D) {
  Pose2D v;
  v.x = vf_choice("sx", 2) ? 0.0f : -0.0f;
  v.y = vf_choice("sy", 2) ? 0.0f : -0.0f;
  v.theta = vf_float("theta");
  vf_assert(throws([&] { v.normalize(); }), "normalising a pose with a null position throws");
}
// away from zero nothing is refused
template <class T> static T scaled(const char *n) {
  float u[N<T>::n];
  vf_unitn(n, N<T>::n, u);
  const float k[] = {0.00390625f, 1, 256};
  const float s = vf_real("s", 1, 2) * k[vf_choice("scale", 3)];
  T v;
  for (int i = 0; i < N<T>::n; ++i) at(v, i) = u[i] * s;
  return v;
}
VF_R(accepts2) { const Position2D v = scaled<Position2D>("u"); vf_assert(!throws([&] { v.normalize(); }), "a vector that is not null is normalised"); }
VF_R(accepts3) { const Position3D v = scaled<Position3D>("u"); vf_assert(!throws([&] { v.normalize(); }), "a vector that is not null is normalised"); }
VF_R(acceptsV3) { const Velocity3D v = scaled<Velocity3D>("u"); vf_assert(!throws([&] { v.normalize(); }), "a vector that is not null is normalised"); }
VF_R(accepts6) { const Position6D v = scaled<Position6D>("u"); vf_assert(!throws([&] { normalize(v); }), "a vector that is not null is normalised"); }
VF_R(acceptsV6) { const Velocity6D v = scaled<Velocity6D>("u"); vf_assert(!throws([&] { v.normalize(); }), "a vector that is not null is normalised"); }
VF_R(acceptsQ) { const Quaternion v = scaled<Quaternion>("u"); vf_assert(!throws([&] { v.normalize(); }), "a vector that is not null is normalised"); }
VF_R(acceptsPose) {
  const Position2D u = scaled<Position2D>("u");
  Pose2D v;
  v.x = u.x; v.y = u.y; v.theta = vf_real("theta", -7, 7);
  vf_assert(!throws([&] { v.normalize(); }), "a pose that is not null is normalised");
}
