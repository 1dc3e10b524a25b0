// SRC: @core
// BOUND: 3x3 blocks with free entries in [-1,1] (composition laws) or exact rotations from a unit quaternion (inverse laws); translations and points in [-10,10]; products of at most three transforms
#include "gen.h"
#include <almath/tools/altransformhelpers.h>
using namespace AL::Math;
using namespace vfg;
VF_R(product) {
  Transform a = anyT("a"), b = anyT("b"), p = a * b, q = a;
  close(rot(p), mul(rot(a), rot(b)), 2e-6, "product rotation block");
  close(pos(p), add(mul(rot(a), pos(b)), pos(a)), 2e-5, "product translation");
  Transform &r = (q *= b);
  closeT(q, rot(p), pos(p), 4e-6, 4e-5, "a *= b equals a * b");
  vf_assert(&r == &q, "*= returns its left operand");
}
VF_R(assoc) {
  Transform a = anyT("a"), b = anyT("b"), c = anyT("c");
  closeT((a * b) * c, a * (b * c), 3e-5, 3e-4, "associativity");
}
VF_R(identity) {
  Transform a = anyT("a", 1000), e;
  closeT(a * e, rot(a), pos(a), 1e-6, 2e-3, "right identity");
  closeT(e * a, rot(a), pos(a), 1e-6, 2e-3, "left identity");
  closeT(e, eye(), P3{{0, 0, 0}}, 0, 0, "default is the identity");
  Transform t(a.r1_c4, a.r2_c4, a.r3_c4);
  closeT(t, eye(), pos(a), 0, 0, "translation constructor");
}
VF_R(self) {
  Transform a = anyT("a"), s = a * a;
  a *= a;
  closeT(a, rot(s), pos(s), 4e-6, 4e-5, "a *= a equals a * a");
}
VF_R(premultiply) {
  Transform a = anyT("a"), b = anyT("b"), p = a * b;
  transformPreMultiply(a, b);
  closeT(b, rot(p), pos(p), 4e-6, 4e-5, "transformPreMultiply(a, b) stores a*b in b");
}
VF_R(inverse) {
  Transform t = rigidT("q", "p"), e;
  const M3 R = tr(rot(t));
  const P3 p = neg(mul(R, pos(t)));
  Transform o;
  transformInverse(t, o);
  closeT(o, R, p, 3e-6, 1e-4, "transformInverse out parameter");
  closeT(t.inverse(), rot(o), pos(o), 3e-6, 1e-4, "inverse() member");
  closeT(transformInverse(t), rot(o), pos(o), 3e-6, 1e-4, "transformInverse");
  closeT(pinv(t), rot(o), pos(o), 3e-6, 1e-4, "pinv");
  Transform i = t;
  transformInvertInPlace(i);
  closeT(i, rot(o), pos(o), 3e-6, 1e-4, "transformInvertInPlace");
  closeT(t * o, e, 1e-5, 3e-4, "t * t^-1");
  closeT(o * t, e, 1e-5, 3e-4, "t^-1 * t");
}
VF_R(inverse2) {
  Transform t = rigidT("q", "p");
  closeT(t.inverse().inverse(), rot(t), pos(t), 1e-5, 2e-3, "(t^-1)^-1");
}
VF_R(diff) {
  Transform a = rigidT("a", "pa"), b = anyT("b");
  Transform d = transformDiff(a, b);
  closeT(d, mul(tr(rot(a)), rot(b)), mul(tr(rot(a)), add(pos(b), neg(pos(a)))), 1.2e-5, 2e-4, "transformDiff(a,b) = a^-1 b");
  closeT(a.diff(b), rot(d), pos(d), 1.2e-5, 2e-4, "diff member");
  closeT(a * d, rot(b), pos(b), 2e-5, 4e-4, "a * transformDiff(a,b) = b");
}
VF_R(point) {
  Transform a = anyT("a");
  Position3D p{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10)};
  Position3D r = a * p;
  close(P3{{r.x, r.y, r.z}}, add(mul(rot(a), P3{{p.x, p.y, p.z}}), pos(a)), 2e-5, "transform * point");
  Position3D r2 = a * Position2D(p.x, p.y);
  close(P3{{r2.x, r2.y, r2.z}}, add(mul(rot(a), P3{{p.x, p.y, 0}}), pos(a)), 2e-5, "transform * planar point");
}
VF_R(action) {
  Transform a = anyT("a"), b = anyT("b");
  Position3D p{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10)};
  Position3D l = (a * b) * p, r = a * (b * p);
  close(P3{{l.x, l.y, l.z}}, P3{{r.x, r.y, r.z}}, 3e-4, "(a b) p = a (b p)");
}
VF_R(rigid) {
  Transform a = rigidT("a", "pa");
  Position3D p{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10)}, q{vf_real("q", -10, 10), vf_real("q", -10, 10), vf_real("q", -10, 10)};
  Position3D u = a * p, v = a * q;
  double d0 = 0, d1 = 0;
  d0 = ((double)p.x - q.x) * ((double)p.x - q.x) + ((double)p.y - q.y) * ((double)p.y - q.y) + ((double)p.z - q.z) * ((double)p.z - q.z);
  d1 = ((double)u.x - v.x) * ((double)u.x - v.x) + ((double)u.y - v.y) * ((double)u.y - v.y) + ((double)u.z - v.z) * ((double)u.z - v.z);
  vf_close(d1, d0, 0.3, "rigid transforms preserve distances");
}
VF_R(determinant) {
  Transform a = anyT("a"), r = rigidT("q", "p");
  const double d = det(rot(a));
  vf_close(determinant(a), d, 8e-6, "determinant");
  vf_close(a.determinant(), d, 8e-6, "determinant member");
  std::vector<float> v = a.toVector(), w(v.begin(), v.begin() + 12), s(v.begin(), v.begin() + 11);
  vf_close(determinant(v), d, 8e-6, "determinant of 16 floats");
  vf_close(determinant(w), d, 8e-6, "determinant of 12 floats");
  vf_close(determinant(s), 0, 0, "determinant of a wrong-size vector is 0");
  vf_close(r.determinant(), 1, 2e-5, "determinant of a rigid transform");
}
VF_R(norms) {
  Transform a = anyT("a"), b = anyT("b");
  const double n2 = (double)a.r1_c4 * a.r1_c4 + (double)a.r2_c4 * a.r2_c4 + (double)a.r3_c4 * a.r3_c4;
  const double dx = (double)a.r1_c4 - b.r1_c4, dy = (double)a.r2_c4 - b.r2_c4, dz = (double)a.r3_c4 - b.r3_c4, d2 = dx * dx + dy * dy + dz * dz;
  vf_assume(n2 > 1e-4 && d2 > 1e-4);
  vf_close(norm(a), std::sqrt(n2), 2e-2, "norm");
  vf_close(a.norm(), std::sqrt(n2), 2e-2, "norm member");
  vf_close(transformDistanceSquared(a, b), d2, 1e-3, "distance squared");
  vf_close(a.distanceSquared(b), d2, 1e-3, "distance squared member");
  vf_close(transformDistance(a, b), std::sqrt(d2), 3e-2, "distance");
  vf_close(a.distance(b), std::sqrt(d2), 3e-2, "distance member");
}
