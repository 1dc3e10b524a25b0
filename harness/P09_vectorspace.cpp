// SRC: @core
// BOUND: components in [-100,100], scalars in [-10,10], divisors with magnitude in [1/16,16]
#include "types.h"
#include <almath/tools/almath.h>
template <class T, class F> static void comp(const T &r, F f, double tol, const char *w) { for (int i = 0; i < N<T>::n; ++i) vf_close(get(r, i), f(i), tol, w); }
static float divisor() { const float d = vf_real("d", 0.0625, 16); return vf_choice("neg", 2) ? -d : d; }
template <class T> static void addsub() {
  const T a = anyv<T>("a"), b = anyv<T>("b");
  comp(a + b, [&](int i) { return (double)get(a, i) + get(b, i); }, 3e-5, "a + b is component-wise");
  comp(a - b, [&](int i) { return (double)get(a, i) - get(b, i); }, 3e-5, "a - b is component-wise");
}
template <class T> static void unary() {
  const T a = anyv<T>("a");
  comp(+a, [&](int i) { return (double)get(a, i); }, 0, "+a is a");
  comp(-a, [&](int i) { return -(double)get(a, i); }, 0, "-a negates every component");
}
template <class T> static void compound() {
  const T a = anyv<T>("a"), b = anyv<T>("b");
  T c = a, d = a, e = a;
  const T *pc = &(c += b), *pd = &(d -= b);
  vf_assert(pc == &c && pd == &d, "compound assignment returns its left operand");
  comp(c, [&](int i) { return (double)get(a, i) + get(b, i); }, 3e-5, "a += b is component-wise");
  comp(d, [&](int i) { return (double)get(a, i) - get(b, i); }, 3e-5, "a -= b is component-wise");
  e += e;
  comp(e, [&](int i) { return 2.0 * get(a, i); }, 3e-5, "a += a doubles");
  e -= e;
  comp(e, [&](int) { return 0.0; }, 3e-5, "a -= a is zero");
}
template <class T> static void scale() {
  const T a = anyv<T>("a");
  const float s = vf_real("s", -10, 10), q = divisor();
  T c = a, d = a;
  comp(a * s, [&](int i) { return (double)get(a, i) * s; }, 2e-4, "a * s scales every component");
  comp(a / q, [&](int i) { return (double)get(a, i) / q; }, 1e-3, "a / s divides every component");
  const T *pc = &(c *= s), *pd = &(d /= q);
  vf_assert(pc == &c && pd == &d, "compound assignment returns its left operand");
  comp(c, [&](int i) { return (double)get(a, i) * s; }, 2e-4, "a *= s scales every component");
  comp(d, [&](int i) { return (double)get(a, i) / q; }, 1e-3, "a /= s divides every component");
}
template <class T> static void ctors() {
  const T z;
  comp(z, [&](int) { return 0.0; }, 0, "the default value is zero");
  const float s = vf_real("s", -100, 100);
  const T u(s);
  comp(u, [&](int) { return (double)s; }, 0, "the one-value constructor fills every component");
}
VF_R(addPosition2D) { addsub<Position2D>(); }
VF_R(addPose2D) { addsub<Pose2D>(); }
VF_R(addPosition3D) { addsub<Position3D>(); }
VF_R(addPosition6D) { addsub<Position6D>(); }
VF_R(addRotation3D) { addsub<Rotation3D>(); }
VF_R(addVelocity3D) { addsub<Velocity3D>(); }
VF_R(addVelocity6D) { addsub<Velocity6D>(); }
VF_R(unary) { unary<Position2D>(); unary<Pose2D>(); unary<Position3D>(); unary<Position6D>(); unary<Velocity3D>(); unary<Velocity6D>(); }
VF_R(compound2D) { compound<Position2D>(); compound<Pose2D>(); }
VF_R(compound3D) { compound<Position3D>(); compound<Rotation3D>(); compound<Velocity3D>(); }
VF_R(compound6D) { compound<Position6D>(); }
VF_R(scalePosition2D) { scale<Position2D>(); }
VF_R(scalePose2D) { scale<Pose2D>(); }
VF_R(scalePosition3D) { scale<Position3D>(); }
VF_R(scalePosition6D) { scale<Position6D>(); }
VF_R(scaleRotation3D) { scale<Rotation3D>(); }
VF_R(scaleVelocity3D) { scale<Velocity3D>(); }
VF_R(scaleVelocity6D) { scale<Velocity6D>(); }
VF_R(ctors) { ctors<Position2D>(); ctors<Pose2D>(); ctors<Position3D>(); ctors<Position6D>(); ctors<Rotation3D>(); ctors<Velocity3D>(); ctors<Velocity6D>(); }
VF_R(leftScale) {
  const float s = vf_real("s", -10, 10);
  const Position2D p = anyv<Position2D>("p");
  const Velocity3D v = anyv<Velocity3D>("v");
  const Velocity6D w = anyv<Velocity6D>("w");
  comp(s * p, [&](int i) { return (double)get(p, i) * s; }, 2e-4, "s * a scales every component");
  comp(s * v, [&](int i) { return (double)get(v, i) * s; }, 2e-4, "s * a scales every component");
  comp(s * w, [&](int i) { return (double)get(w, i) * s; }, 2e-4, "s * a scales every component");
  const Position3D x = anyv<Position3D>("x");
  const Position6D y = anyv<Position6D>("y");
  const Velocity3D vx = s * x;
  const Velocity6D vy = s * y;
  for (int i = 0; i < 3; ++i) vf_close(get(vx, i), (double)get(x, i) * s, 2e-4, "s * position is a velocity");
  for (int i = 0; i < 6; ++i) vf_close(get(vy, i), (double)get(y, i) * s, 2e-4, "s * position is a velocity");
}
VF_R(explicitCtors) {
  float f[6];
  for (int i = 0; i < 6; ++i) f[i] = vf_real("f", -100, 100);
  auto c = [&](int i) { return (double)f[i]; };
  comp(Position2D(f[0], f[1]), c, 0, "components in order");
  comp(Pose2D(f[0], f[1], f[2]), c, 0, "components in order");
  comp(Position3D(f[0], f[1], f[2]), c, 0, "components in order");
  comp(Rotation3D(f[0], f[1], f[2]), c, 0, "components in order");
  comp(Velocity3D(f[0], f[1], f[2]), c, 0, "components in order");
  comp(Position6D(f[0], f[1], f[2], f[3], f[4], f[5]), c, 0, "components in order");
  comp(Velocity6D(f[0], f[1], f[2], f[3], f[4], f[5]), c, 0, "components in order");
  comp(Quaternion(f[0], f[1], f[2], f[3]), c, 0, "components in order");
}
