// SRC: @core
// BOUND: components in [-1,1] (algebraic laws) or exactly unit (rotation laws); normalisation: norm in [0.5,2] times 1, 2^-8 or 2^8; vectors in [-10,10]
#include "gen.h"
#include <almath/types/alquaternion.h>
#include <almath/types/alposition3d.h>
#include <almath/tools/almath.h>
#include <stdexcept>
using namespace AL::Math;
using namespace vfg;
static Quaternion any(const char *n) { return Quaternion{vf_real(n, -1, 1), vf_real(n, -1, 1), vf_real(n, -1, 1), vf_real(n, -1, 1)}; }
static Quaternion unit(const char *n) { Q4 q = unitQ(n); return Quaternion(q.w, q.x, q.y, q.z); }
static void ham(const Quaternion &a, const Quaternion &b, double *r) {
  const double w = a.w, x = a.x, y = a.y, z = a.z, W = b.w, X = b.x, Y = b.y, Z = b.z;
  r[0] = w * W - x * X - y * Y - z * Z;
  r[1] = w * X + x * W + y * Z - z * Y;
  r[2] = w * Y - x * Z + y * W + z * X;
  r[3] = w * Z + x * Y - y * X + z * W;
}
static void eq(const Quaternion &a, const double *r, double tol, const char *w) {
  vf_close(a.w, r[0], tol, w); vf_close(a.x, r[1], tol, w); vf_close(a.y, r[2], tol, w); vf_close(a.z, r[3], tol, w);
}
static void eqq(const Quaternion &a, const Quaternion &b, double tol, const char *w) { const double r[4] = {b.w, b.x, b.y, b.z}; eq(a, r, tol, w); }
VF_R(product) {
  Quaternion a = any("a"), b = any("b"), c = a;
  double r[4];
  ham(a, b, r);
  eq(a * b, r, 2e-6, "Hamilton product");
  Quaternion &ref = (c *= b);
  eq(c, r, 2e-6, "a *= b");
  vf_assert(&ref == &c, "*= returns its left operand");
  ham(a, a, r);
  eq(a * a, r, 2e-6, "a * a");
  a *= a;
  eq(a, r, 2e-6, "a *= a");
}
VF_R(assoc) {
  Quaternion a = any("a"), b = any("b"), c = any("c");
  eqq((a * b) * c, a * (b * c), 2e-5, "associativity");
}
VF_R(identity) {
  Quaternion a = any("a"), e;
  eqq(a * e, a, 2e-6, "right identity");
  eqq(e * a, a, 2e-6, "left identity");
  vf_assert(e.w == 1 && e.x == 0 && e.y == 0 && e.z == 0, "default is the identity rotation");
}
VF_R(inverse) {
  Quaternion a = unit("a"), e, i = a.inverse(), j = quaternionInverse(a), k;
  quaternionInverse(a, k);
  eqq(a * i, e, 2e-6, "q q^-1");
  eqq(i * a, e, 2e-6, "q^-1 q");
  eqq(j, i, 1e-6, "free function"); eqq(k, i, 1e-6, "out-parameter function");
}
VF_R(antiinverse) {
  Quaternion a = any("a"), b = any("b");
  eqq((a * b).inverse(), b.inverse() * a.inverse(), 3e-6, "(ab)^-1 = b^-1 a^-1");
}
VF_R(scalar) {
  Quaternion a = any("a"), b = a, c = a;
  const float s = vf_real("s", -4, 4);
  const double r[4] = {(double)a.w * s, (double)a.x * s, (double)a.y * s, (double)a.z * s};
  eq(a * s, r, 2e-6, "scaling");
  b *= s;
  eq(b, r, 2e-6, "scaling in place");
  const float d = vf_real("d", 0.25, 8) * (vf_choice("neg", 2) ? -1 : 1);
  const double q[4] = {(double)a.w / d, (double)a.x / d, (double)a.y / d, (double)a.z / d};
  eq(a / d, q, 2e-6 * 4, "division");
  c /= d;
  eq(c, q, 2e-6 * 4, "division in place");
}
VF_R(norm2) {
  Quaternion a = any("a"), b = any("b");
  const double n = a.norm(), N = norm(a);
  const double want = (double)a.w * a.w + (double)a.x * a.x + (double)a.y * a.y + (double)a.z * a.z;
  vf_close(n * n, want, 1.5e-2, "squared norm is the sum of squares");
  vf_close(N * N, want, 1.5e-2, "squared norm is the sum of squares (free function)");
  vf_assert(n >= -1e-6 && N >= -1e-6, "norms are not negative");
}
VF_R(unitnorm) {
  Quaternion a = unit("a"), b = unit("b");
  vf_close(a.norm(), 1, 1e-6, "unit norm");
  vf_close((a * b).norm(), 1, 6e-5, "a product of unit quaternions is unit");
  eqq(a.normalize(), a, 2e-6, "normalising a unit quaternion changes nothing");
}
VF_R(normalize) {
  Quaternion u = unit("u");
  const float k[] = {1, 0.00390625f, 256};
  const float s = vf_real("s", 0.5, 2) * k[vf_choice("scale", 3)];
  Quaternion q(u.w * s, u.x * s, u.y * s, u.z * s);
  vf_close(q.norm() / s, 1, 3e-5, "norm scales");
  eqq(vf_choice("api", 2) ? q.normalize() : normalize(q), u, 2e-4, "normalisation keeps the direction and gives norm 1");
}
VF_B(normzero) {
  Quaternion q(0, 0, 0, 0);
  bool thrown = false;
  try { if (vf_choice("api", 2)) q.normalize(); else normalize(q); } catch (const std::runtime_error &) { thrown = true; }
  vf_assert(thrown, "normalising the zero quaternion throws");
}
VF_R(rotates) {
  Quaternion q = any("q");
  Position3D v{vf_real("v", -10, 10), vf_real("v", -10, 10), vf_real("v", -10, 10)}, r = q * v;
  // q (0,v) conj(q)
  const double w = q.w, x = q.x, y = q.y, z = q.z;
  const double a = -x * v.x - y * v.y - z * v.z, b = w * v.x + y * v.z - z * v.y, c = w * v.y + z * v.x - x * v.z, d = w * v.z + x * v.y - y * v.x;
  vf_close(r.x, -a * x + b * w - c * z + d * y, 8e-5, "q * v is q v q^-1");
  vf_close(r.y, -a * y + b * z + c * w - d * x, 8e-5, "q * v is q v q^-1");
  vf_close(r.z, -a * z - b * y + c * x + d * w, 8e-5, "q * v is q v q^-1");
}
VF_R(isometry) {
  Quaternion q = unit("q");
  Position3D v{vf_real("v", -10, 10), vf_real("v", -10, 10), vf_real("v", -10, 10)}, r = q * v;
  vf_close((double)r.x * r.x + (double)r.y * r.y + (double)r.z * r.z, (double)v.x * v.x + (double)v.y * v.y + (double)v.z * v.z, 6e-2, "a unit quaternion preserves lengths");
}
VF_R(action) {
  Quaternion a = any("a"), b = any("b");
  Position3D v{vf_real("v", -1, 1), vf_real("v", -1, 1), vf_real("v", -1, 1)}, r = a * (b * v), s = (a * b) * v;
  vf_close(r.x, s.x, 4e-4, "(ab) v = a (b v)"); vf_close(r.y, s.y, 4e-4, "(ab) v = a (b v)"); vf_close(r.z, s.z, 4e-4, "(ab) v = a (b v)");
}
VF_B(near) {
  Quaternion a(vf_float("a"), vf_float("a"), vf_float("a"), vf_float("a"));
  const bool fin = std::isfinite(a.w) && std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z);
  vf_assume(fin);
  Quaternion m(-a.w, -a.x, -a.y, -a.z);
  vf_assert(a.isNear(a), "isNear is reflexive");
  vf_assert(a.isNear(m) && m.isNear(a), "q and -q are near: they are the same rotation");
  vf_assert(a == a && !(a != a), "== is reflexive");
}
