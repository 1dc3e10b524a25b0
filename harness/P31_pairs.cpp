// SRC: @core src/types/aldisplacement.cpp src/types/alpositionandvelocity.cpp src/types/altransformandvelocity6d.cpp src/types/alaxismask.cpp
// BOUND: displacements with positions in [-10,10] and quaternions with components in [-1,1] (exactly unit where the displacement is compared with a rigid transform); axis masks: every int; position and velocity pairs: every float bit pattern
#include "types.h"
#include "gen.h"
#include <almath/types/aldisplacement.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/altransformandvelocity6d.h>
#include <almath/types/alaxismask.h>
#include <almath/tools/altransformhelpers.h>
using namespace vfg;
static Displacement anyD(const char *n) {
  Displacement d;
  d.P = anyv<Position3D>(n, 10);
  d.Q = anyv<Quaternion>(n, 1);
  return d;
}
static Displacement rigidD(const char *n) {
  Displacement d;
  d.P = anyv<Position3D>(n, 10);
  const Q4 q = unitQ(n);
  d.Q = Quaternion(q.w, q.x, q.y, q.z);
  return d;
}
static void eq(const Displacement &a, const Displacement &b, double tp, double tq, const char *w) {
  for (int i = 0; i < 3; ++i) vf_close(get(a.P, i), get(b.P, i), tp, w);
  for (int i = 0; i < 4; ++i) vf_close(get(a.Q, i), get(b.Q, i), tq, w);
}
// P + q v q^-1, Hamilton product
static Displacement prod(const Displacement &a, const Displacement &b) {
  const double w = a.Q.w, x = a.Q.x, y = a.Q.y, z = a.Q.z, W = b.Q.w, X = b.Q.x, Y = b.Q.y, Z = b.Q.z, u = b.P.x, v = b.P.y, t = b.P.z;
  const double A = -x * u - y * v - z * t, B = w * u + y * t - z * v, C = w * v + z * u - x * t, D = w * t + x * v - y * u;
  Displacement r;
  r.P.x = a.P.x + (-A * x + B * w - C * z + D * y);
  r.P.y = a.P.y + (-A * y + B * z + C * w - D * x);
  r.P.z = a.P.z + (-A * z - B * y + C * x + D * w);
  r.Q.w = w * W - x * X - y * Y - z * Z;
  r.Q.x = w * X + x * W + y * Z - z * Y;
  r.Q.y = w * Y - x * Z + y * W + z * X;
  r.Q.z = w * Z + x * Y - y * X + z * W;
  return r;
}
VF_R(compose) {
  Displacement a = anyD("a");
  const Displacement b = anyD("b"), a0 = a, c = a * b, r = prod(a0, b);
  eq(a, a0, 0, 0, "the product leaves its left operand unchanged");
  eq(c, r, 5e-4, 2e-6, "composition");
  Displacement &s = (a *= b);
  vf_assert(&s == &a, "*= returns its left operand");
  eq(a, r, 5e-4, 2e-6, "composition in place");
}
VF_R(square) {
  Displacement a = anyD("a");
  const Displacement r = prod(a, a);
  a *= a;
  eq(a, r, 5e-4, 2e-6, "composition with itself in place");
}
VF_R(identity) {
  Displacement a = anyD("a"), e;
  eq(e, Displacement(Position3D(0, 0, 0), Quaternion(1, 0, 0, 0)), 0, 0, "the default displacement is the identity");
  eq(Displacement(a.P), Displacement(a.P, Quaternion(1, 0, 0, 0)), 0, 0, "a displacement without quaternion is a translation");
  eq(Displacement(a.P, a.Q), a, 0, 0, "construction");
  eq(a * e, a, 1e-5, 1e-6, "right identity");
  eq(e * a, a, 1e-5, 1e-6, "left identity");
}
VF_R(transform) {
  const Displacement d = rigidD("d");
  const Transform t = transformFromDisplacement(d);
  const M3 m = qmat(Q4{d.Q.w, d.Q.x, d.Q.y, d.Q.z});
  close(rot(t), m, 2e-6, "the rotation of the transform is that of the displacement");
  vf_close(t.r1_c4, d.P.x, 0, "translation"); vf_close(t.r2_c4, d.P.y, 0, "translation"); vf_close(t.r3_c4, d.P.z, 0, "translation");
}
VF_R(homomorphism) {
  Displacement a = rigidD("a");
  const Displacement b = rigidD("b");
  const Transform ab = transformFromDisplacement(a) * transformFromDisplacement(b);
  closeT(transformFromDisplacement(a * b), ab, 2e-4, 2e-3, "composition is that of the transforms");
}
VF_R(back) {   // the conversion of rotations itself is the subject of P06
  const float t = vf_angle("t", 0.2, 3, 2);
  const int k = vf_choice("axis", 3);
  const double c = std::cos((double)t), s = std::sin((double)t);
  M3 r = eye();
  const int i = (k + 1) % 3, j = (k + 2) % 3;
  r.m[i][i] = r.m[j][j] = c; r.m[i][j] = -s; r.m[j][i] = s;
  Transform T;
  put(r, T);
  T.r1_c4 = vf_real("p", -10, 10); T.r2_c4 = vf_real("p", -10, 10); T.r3_c4 = vf_real("p", -10, 10);
  const Displacement d = displacementFromTransform(T);
  vf_close(d.P.x, T.r1_c4, 0, "translation"); vf_close(d.P.y, T.r2_c4, 0, "translation"); vf_close(d.P.z, T.r3_c4, 0, "translation");
  const Quaternion q = quaternionFromTransform(T);
  for (int n = 0; n < 4; ++n) vf_close(get(d.Q, n), get(q, n), 2e-2, "rotation");
}
VF_R(near) {
  const float e = vf_real("eps", 1e-3, 2);
  Displacement a, b;
  a.P = anyv<Position3D>("p", 10); b.P = a.P;
  a.Q = anyv<Quaternion>("q", 1); b.Q = a.Q;
  vf_assert(a.isNear(b) && a.isNear(b, e), "a displacement is near itself");
  const int k = vf_choice("component", 7);
  const float d = vf_real("d", 1.1, 3) * (vf_choice("side", 2) ? -1 : 1);
  if (k < 3) at(b.P, k) += d * e;
  else { at(b.Q, k - 3) += d * e; vf_assume(std::fabs(get(b.Q, k - 3) + get(a.Q, k - 3)) > 1.1 * e); }
  vf_assert(!a.isNear(b, e) && !b.isNear(a, e), "displacements which differ by more than the tolerance in one component are not near");
}
VF_R(nearIn) {
  const float e = vf_real("eps", 1e-3, 2);
  const Displacement a = anyD("a");
  Displacement b;
  for (int i = 0; i < 3; ++i) at(b.P, i) = get(a.P, i) + e * vf_real("d", -0.9, 0.9);
  const float s = vf_choice("sign", 2) ? -1 : 1;
  for (int i = 0; i < 4; ++i) at(b.Q, i) = s * (get(a.Q, i) + e * vf_real("d", -0.9, 0.9));
  vf_assert(a.isNear(b, e) && b.isNear(a, e), "displacements which differ by less than the tolerance in every component are near, opposite quaternions included");
}
VF_B(mask) {
  const int m = vf_int("mask", -2147483647 - 1, 2147483647);
  vf_assert(isAxisMask(m) == (m >= 1 && m <= 63), "the axis masks are the non-empty sets of six axes");
}
VF_B(maskNames) {
  vf_assert(AXIS_MASK_ALL == (AXIS_MASK_VEL | AXIS_MASK_ROT) && AXIS_MASK_VEL == (AXIS_MASK_X | AXIS_MASK_Y | AXIS_MASK_Z) && AXIS_MASK_ROT == (AXIS_MASK_WX | AXIS_MASK_WY | AXIS_MASK_WZ), "named masks");
  vf_assert(AXIS_MASK_XY == (AXIS_MASK_X | AXIS_MASK_Y) && AXIS_MASK_WYWZ == (AXIS_MASK_WY | AXIS_MASK_WZ) && AXIS_MASK_PLANEZ == (AXIS_MASK_Z | AXIS_MASK_WX | AXIS_MASK_WY) && AXIS_MASK_NONE == 0, "named masks");
}
VF_B(pair) {
  const float q = vf_float("q"), dq = vf_float("dq");
  const PositionAndVelocity p(q, dq);
  vf_same(p.q, q, "position"); vf_same(p.dq, dq, "velocity");
  const std::vector<float> v = p.toVector();
  vf_assert(v.size() == 2, "two values");
  vf_same(v[0], q, "position first"); vf_same(v[1], dq, "velocity second");
  std::vector<float> w(vf_choice("size", 4), 3.0f);
  p.toVector(w);
  vf_assert(w.size() == 2, "two values");
  vf_same(w[0], q, "position first"); vf_same(w[1], dq, "velocity second");
  const PositionAndVelocity z;
  vf_assert(z.q == 0 && z.dq == 0, "the default is zero");
}
VF_B(pairSelf) {
  const float q = vf_float("q"), dq = vf_float("dq");
  vf_assume(std::isfinite(q) && std::isfinite(dq));
  const PositionAndVelocity p(q, dq);
  vf_assert(p.isNear(p), "a pair is near itself");
  vf_assert(p.isNear(p, 0.0f), "a pair is near itself for any tolerance");
}
VF_B(pairNaN) {
  const float q = vf_float("q"), dq = vf_float("dq");
  const int k = vf_choice("which", 2);
  const float n = vf_float("nan");
  vf_assume(n != n);
  const PositionAndVelocity p(q, dq), r(k ? n : q, k ? dq : n);
  vf_assert(!p.isNear(r) && !r.isNear(p), "a pair with a NaN is near nothing");
}
VF_R(pairNear) {
  const float e = vf_real("eps", 1e-4, 2);
  PositionAndVelocity p, r;
  p.q = vf_real("q", -10, 10); p.dq = vf_real("dq", -10, 10);
  r.q = p.q + e * vf_real("d", -0.95, 0.95);
  r.dq = p.dq + e * vf_real("d", -0.95, 0.95);
  vf_assert(p.isNear(r, e + 1e-5f) && r.isNear(p, e + 1e-5f), "within the tolerance");
  const float d = vf_real("far", 1.05, 3) * (vf_choice("side", 2) ? -1 : 1);
  if (vf_choice("which", 2)) r.q = p.q + d * e; else r.dq = p.dq + d * e;
  vf_assert(!p.isNear(r, e - 1e-5f) && !r.isNear(p, e - 1e-5f), "out of the tolerance");
}
VF_R(transformPair) {
  const Transform t = anyT("t");
  const Velocity6D v = anyv<Velocity6D>("v", 10);
  const TransformAndVelocity6D a(t, v);
  for (int i = 0; i < 12; ++i) vf_close(get(a.T, i), get(t, i), 1e-6, "transform");
  for (int i = 0; i < 6; ++i) vf_close(get(a.V, i), get(v, i), 0, "velocity");
  TransformAndVelocity6D z, b(t, v);
  for (int i = 0; i < 12; ++i) vf_close(get(z.T, i), i % 5 == 0, 0, "the default transform is the identity");
  for (int i = 0; i < 6; ++i) vf_close(get(z.V, i), 0, 0, "the default velocity is null");
  const float e = vf_real("eps", 1e-3, 2);
  vf_assert(a.isNear(b) && a.isNear(b, e), "a value is near itself");
  const int k = vf_choice("component", 18);
  const float d = vf_real("d", 1.1, 3) * (vf_choice("side", 2) ? -1 : 1);
  if (k < 12) at(b.T, k) += d * e; else at(b.V, k - 12) += d * e;
  vf_assert(!a.isNear(b, e) && !b.isNear(a, e), "values which differ by more than the tolerance in one component are not near");
}
VF_R(transformPairNear) {
  const float e = vf_real("eps", 1e-3, 2);
  TransformAndVelocity6D a(anyT("t"), anyv<Velocity6D>("v", 10)), b;
  for (int i = 0; i < 12; ++i) at(b.T, i) = get(a.T, i) + e * vf_real("d", -0.9, 0.9);
  for (int i = 0; i < 6; ++i) at(b.V, i) = get(a.V, i) + e * vf_real("d", -0.9, 0.9);
  vf_assert(a.isNear(b, e) && b.isNear(a, e), "values which differ by less than the tolerance in every component are near");
}
