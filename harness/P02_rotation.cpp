// SRC: @core
// BOUND: entries free in [-1,1] (composition laws) or exact rotations from a unit quaternion (inverse laws); vectors in [-10,10]; products of at most three rotations
#include "gen.h"
#include <almath/tools/almath.h>
using namespace AL::Math;
using namespace vfg;
VF_R(product) {
  Rotation a = anyR("a"), b = anyR("b"), p = a * b, q = a;
  close(rot(p), mul(rot(a), rot(b)), 3e-6, "product");
  Rotation &r = (q *= b);
  close(rot(q), rot(p), 3e-6, "a *= b equals a * b");
  vf_assert(&r == &q, "*= returns its left operand");
}
VF_R(self) {
  Rotation a = anyR("a"), s = a * a;
  close(rot(s), mul(rot(a), rot(a)), 3e-6, "a * a");
  a *= a;
  close(rot(a), rot(s), 3e-6, "a *= a equals a * a");
}
VF_R(assoc) {
  Rotation a = anyR("a"), b = anyR("b"), c = anyR("c");
  close(rot((a * b) * c), rot(a * (b * c)), 3e-5, "associativity");
}
VF_R(identity) {
  Rotation a = anyR("a"), e;
  close(rot(a * e), rot(a), 2e-6, "right identity");
  close(rot(e * a), rot(a), 2e-6, "left identity");
  close(rot(e), eye(), 0, "default is the identity");
}
VF_B(transpose) {
  float e[9];
  for (int i = 0; i < 9; ++i) e[i] = vf_float("e");
  Rotation r;
  r.r1_c1 = e[0]; r.r1_c2 = e[1]; r.r1_c3 = e[2]; r.r2_c1 = e[3]; r.r2_c2 = e[4]; r.r2_c3 = e[5]; r.r3_c1 = e[6]; r.r3_c2 = e[7]; r.r3_c3 = e[8];
  Rotation t = transpose(r), u = r.transpose();
  vf_same(t.r1_c1, e[0], "transpose"); vf_same(t.r1_c2, e[3], "transpose"); vf_same(t.r1_c3, e[6], "transpose");
  vf_same(t.r2_c1, e[1], "transpose"); vf_same(t.r2_c2, e[4], "transpose"); vf_same(t.r2_c3, e[7], "transpose");
  vf_same(t.r3_c1, e[2], "transpose"); vf_same(t.r3_c2, e[5], "transpose"); vf_same(t.r3_c3, e[8], "transpose");
  vf_same(u.r1_c2, e[3], "transpose member"); vf_same(u.r3_c1, e[2], "transpose member"); vf_same(u.r2_c3, e[7], "transpose member");
  vf_same(u.r2_c1, e[1], "transpose member"); vf_same(u.r1_c3, e[6], "transpose member"); vf_same(u.r3_c2, e[5], "transpose member");
  vf_same(u.r1_c1, e[0], "transpose member"); vf_same(u.r2_c2, e[4], "transpose member"); vf_same(u.r3_c3, e[8], "transpose member");
}
VF_R(orthonormal) {
  Rotation r = rigidR("q"), e;
  close(rot(r * r.transpose()), eye(), 1e-5, "r r^T");
  close(rot(r.transpose() * r), eye(), 1e-5, "r^T r");
  vf_close(r.determinant(), 1, 2e-5, "determinant of a rotation");
}
VF_R(anti) {
  Rotation a = anyR("a"), b = anyR("b");
  close(rot((a * b).transpose()), rot(b.transpose() * a.transpose()), 4e-6, "(ab)^T = b^T a^T");
}
VF_R(determinant) {
  Rotation a = anyR("a"), b = anyR("b");
  vf_close(determinant(a), det(rot(a)), 8e-6, "determinant");
  vf_close(a.determinant(), det(rot(a)), 8e-6, "determinant member");
}
VF_R(detprod) {
  Rotation a = rigidR("a"), b = rigidR("b");
  vf_close((a * b).determinant(), 1, 1e-3, "determinant of a product of rotations");
}
VF_R(vectors) {
  Rotation a = anyR("a");
  P3 p{{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10)}}, o = mul(rot(a), p);
  Position3D r = a * Position3D(p.v[0], p.v[1], p.v[2]);
  close(P3{{r.x, r.y, r.z}}, o, 2e-5, "rotation * point");
  Velocity3D v = a * Velocity3D(p.v[0], p.v[1], p.v[2]);
  close(P3{{v.xd, v.yd, v.zd}}, o, 2e-5, "rotation * velocity");
  float x = p.v[0], y = p.v[1], z = p.v[2];
  applyRotation(a, x, y, z);
  close(P3{{x, y, z}}, o, 2e-5, "applyRotation");
}
VF_R(action) {
  Rotation a = anyR("a"), b = anyR("b");
  Position3D p{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10)};
  Position3D l = (a * b) * p, r = a * (b * p);
  close(P3{{l.x, l.y, l.z}}, P3{{r.x, r.y, r.z}}, 2e-4, "(a b) p = a (b p)");
}
VF_R(length) {
  Rotation a = rigidR("a");
  Position3D p{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10)}, r = a * p;
  vf_close((double)r.x * r.x + (double)r.y * r.y + (double)r.z * r.z, (double)p.x * p.x + (double)p.y * p.y + (double)p.z * p.z, 2e-2, "rotations preserve length");
}
