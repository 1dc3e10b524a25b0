// SRC: @core
// BOUND: exponential: any axis, angles up to 7 rad (series below 0.001), linear parts in [-1,1]; logarithm: any axis, angles below 0.0005, in [0.05,2.9] and half turns; interpolation: any first transform within 1 m, relative motion about a coordinate axis by [0.7,0.9], [1.4,1.5] or [2,2.2] or about any axis by [0.85,0.9], [1.4,1.5] or [1.9,1.95], parameters 0, 0.5, 1
#include "types.h"
#include "gen.h"
#include <almath/tools/altransformhelpers.h>
using namespace vfg;
static M3 skew(const double *u) { M3 r; double m[9] = {0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0}; for (int i = 0; i < 9; ++i) r.m[i / 3][i % 3] = m[i]; return r; }
static M3 lin(double a, const M3 &A, double b, const M3 &B) {   // 1 + a A + b B
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = (i == j) + a * A.m[i][j] + b * B.m[i][j];
  return r;
}
static P3 lin3(const char *n, double b) { P3 v; for (int i = 0; i < 3; ++i) v.v[i] = vf_real(n, -b, b); return v; }
// exp of (t u, v) in closed form: rotation, translation
static void expm(double t, const double *u, const P3 &v, M3 &R, P3 &p) {
  const M3 K = skew(u), K2 = mul(K, K);
  const double c = std::cos(t), s = std::sin(t);
  R = lin(s, K, 1 - c, K2);
  p = mul(lin((1 - c) / t, K, 1 - s / t, K2), v);
}
static Transform expo(const Velocity6D &v) {
  if (vf_choice("form", 2)) return velocityExponential(v);
  Transform t;
  velocityExponentialInPlace(v, t);
  return t;
}
static void exponential(double lo, double hi, double vb, double tr_, double tp) {
  float a[3];
  vf_unitn("u", 3, a);
  const double u[3] = {a[0], a[1], a[2]};
  const float t = vf_angle("t", lo, hi, 1);
  const P3 v = lin3("v", vb);
  vf_root(t);
  Velocity6D w(v.v[0], v.v[1], v.v[2], t * u[0], t * u[1], t * u[2]);
  M3 R; P3 p;
  expm(t, u, v, R, p);
  closeT(expo(w), R, p, tr_, tp, "exponential of a velocity");
}
VF_R(exponential) {
  const double at[] = {0.00101, 0.0015, 0.002, 0.003, 0.004, 0.006, 0.008, 0.016, 0.032, 0.064, 0.125, 0.25, 0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 6, 7};
  const int i = vf_choice("range", 21);
  exponential(at[i], at[i + 1], 1, i < 7 ? 3e-6 : i < 8 ? 4e-6 : i < 9 ? 6e-6 : i < 10 ? 1.2e-5 : 1e-4, 2e-3);
}
VF_R(expSmall) {
  Velocity6D w;
  for (int i = 0; i < 3; ++i) { at(w, i) = vf_real("v", -10, 10); at(w, i + 3) = vf_real("w", -5e-4, 5e-4); }
  const double u[3] = {w.wxd, w.wyd, w.wzd};
  const M3 K = skew(u), K2 = mul(K, K);
  const P3 v = {{w.xd, w.yd, w.zd}};
  closeT(expo(w), lin(1, K, 0.5, K2), mul(lin(0.5, K, 1 / 6., K2), v), 1e-6, 1e-5, "exponential of a small velocity");
}
static Velocity6D logo(const Transform &t) {
  if (vf_choice("form", 2)) return transformLogarithm(t);
  Velocity6D v;
  transformLogarithmInPlace(t, v);
  return v;
}
static void logarithm(double lo, double hi, double slo, double shi, double ta, double tv) {
  float a[3];
  vf_unitn("u", 3, a);
  const double u[3] = {a[0], a[1], a[2]};
  const float t = vf_angle("t", lo, hi, 1);
  vf_bound(std::sin((double)t), slo, shi);
  const P3 v = lin3("v", 1);
  M3 R; P3 p;
  expm(t, u, v, R, p);
  Transform T;
  put(R, T);
  T.r1_c4 = p.v[0]; T.r2_c4 = p.v[1]; T.r3_c4 = p.v[2];
  vf_root(std::sin((double)t));
  vf_root(2 * std::sin((double)t));
  const Velocity6D w = logo(T);
  vf_close(w.wxd, t * u[0], ta, "angular part of the logarithm");
  vf_close(w.wyd, t * u[1], ta, "angular part of the logarithm");
  vf_close(w.wzd, t * u[2], ta, "angular part of the logarithm");
  vf_close(w.xd, v.v[0], tv, "linear part of the logarithm");
  vf_close(w.yd, v.v[1], tv, "linear part of the logarithm");
  vf_close(w.zd, v.v[2], tv, "linear part of the logarithm");
}
VF_R(log) {
  const double r[19][4] = {   // angle range, range of its sine
    {0.05, 0.07, 0.0499, 0.0700},
    {0.07, 0.1, 0.0698, 0.0999},
    {0.1, 0.15, 0.0997, 0.1495},
    {0.15, 0.2, 0.1493, 0.1988},
    {0.2, 0.3, 0.1986, 0.2956},
    {0.3, 0.45, 0.2954, 0.4351},
    {0.45, 0.7, 0.4349, 0.6443},
    {0.7, 1, 0.6441, 0.8416},
    {1, 1.4, 0.8414, 0.9855},
    {1.4, 1.7, 0.9853, 1.0000},
    {1.7, 2, 0.9092, 0.9918},
    {2, 2.2, 0.8084, 0.9094},
    {2.2, 2.4, 0.6754, 0.8086},
    {2.4, 2.5, 0.5984, 0.6756},
    {2.5, 2.6, 0.5154, 0.5986},
    {2.6, 2.7, 0.4273, 0.5156},
    {2.7, 2.8, 0.3349, 0.4275},
    {2.8, 2.85, 0.2874, 0.3351},
    {2.85, 2.9, 0.2391, 0.2876}};
  const int i = vf_choice("range", 19);
  logarithm(r[i][0], r[i][1], r[i][2], r[i][3], 1e-3, 0.05);
}
// half turns
VF_R(halfTurnAxis) {
  const int k = vf_choice("axis", 3);
  Transform T;
  const P3 p = lin3("p", 10);
  M3 R = eye();
  for (int i = 0; i < 3; ++i) if (i != k) R.m[i][i] = -1;
  put(R, T);
  T.r1_c4 = p.v[0]; T.r2_c4 = p.v[1]; T.r3_c4 = p.v[2];
  closeT(expo(logo(T)), R, p, 1e-4, 1e-3, "the exponential of the logarithm of a half turn about a coordinate axis");
}
// near the identity
VF_R(logSmall) {
  float w[3], p[3];
  for (int i = 0; i < 3; ++i) w[i] = vf_real("w", -5e-4, 5e-4);
  for (int i = 0; i < 3; ++i) p[i] = vf_real("p", -10, 10);
  const double u[3] = {w[0], w[1], w[2]};
  const M3 K = skew(u);
  Transform T;
  put(lin(1, K, 0.5, mul(K, K)), T);
  T.r1_c4 = p[0]; T.r2_c4 = p[1]; T.r3_c4 = p[2];
  const Velocity6D v = logo(T);
  for (int i = 0; i < 3; ++i) vf_close(get(v, i + 3), w[i], 1e-5, "angular part of the logarithm of a small motion");
  const P3 q = mul(K, P3{{p[0], p[1], p[2]}});
  for (int i = 0; i < 3; ++i) vf_close(get(v, i), p[i] - 0.5 * q.v[i], 1e-4, "linear part of the logarithm of a small motion");
}
static Transform meant(const Transform &a, const Transform &b, float d) {
  if (vf_choice("form", 2)) return transformMean(a, b, d);
  Transform t;
  transformMeanInPlace(a, b, d, t);
  return t;
}
static void mean(double lo, double hi, double slo, double shi, bool any) {
  const Transform A = rigidT("a", "b", 1);
  float a[3] = {0, 0, 0};
  if (any) vf_unitn("u", 3, a);
  else a[vf_choice("axis", 3)] = 1;
  const double u[3] = {a[0], a[1], a[2]};
  const float t = vf_angle("t", lo, hi, 2);
  const double tt = t;
  vf_bound(std::sin(tt), slo, shi);
  vf_root(std::sin(tt));
  vf_root(2 * std::sin(tt));
  const P3 v = lin3("v", 1);
  M3 R, S; P3 p, q;
  expm(t, u, v, R, p);
  const float d = 0.5f * vf_choice("d", 3);
  vf_root(d * t);
  if (d > 0) expm(d * tt, u, P3{{d * v.v[0], d * v.v[1], d * v.v[2]}}, S, q);
  else { S = eye(); q = P3{{0, 0, 0}}; }
  Transform B;
  put(mul(rot(A), R), B);
  const P3 b = add(pos(A), mul(rot(A), p));
  B.r1_c4 = b.v[0]; B.r2_c4 = b.v[1]; B.r3_c4 = b.v[2];
  closeT(meant(A, B, d), mul(rot(A), S), add(pos(A), mul(rot(A), q)), any ? 0.1 : 0.05, any ? 1 : 0.2, "interpolation follows the constant velocity from the first transform to the second");
}
VF_R(mean1) { mean(0.7, 0.9, 0.64, 0.79, false); }
VF_R(mean2) { mean(1.4, 1.5, 0.98, 1, false); }
VF_R(mean3) { mean(2, 2.2, 0.8, 0.91, false); }
VF_R(mean4) { mean(0.85, 0.9, 0.75, 0.79, true); }
VF_R(mean5) { mean(1.4, 1.5, 0.98, 1, true); }
VF_R(mean6) { mean(1.9, 1.95, 0.92, 0.95, true); }
VF_B(refused) {
  const float d = vf_float("d");
  Transform t, a;
  bool thrown = false;
  vf_assume(d < 0 || d > 1);
  try { meant(a, a, d); } catch (const std::runtime_error &) { thrown = true; }
  vf_assert(thrown, "an interpolation parameter outside [0,1] is refused");
}
// half turns about axes in the coordinate planes
VF_R(halfTurnPlane) {
  const int k = vf_choice("plane", 3), side = vf_choice("side", 2);
  const float t = side ? vf_angle("t", 0.1, 0.78, 1) : vf_angle("t", 0.79, 1.5, 1);
  double u[3] = {0, 0, 0};
  u[k] = std::cos((double)t);
  u[(k + 1) % 3] = std::sin((double)t);
  vf_bound(u[k], side ? 0.7 : 0.07, side ? 1 : 0.71);
  vf_bound(u[(k + 1) % 3], side ? 0.09 : 0.7, side ? 0.71 : 1);
  const P3 p = lin3("p", 1);
  Transform T;
  const M3 K = skew(u), R = lin(0, K, 2, mul(K, K));
  put(R, T);
  T.r1_c4 = p.v[0]; T.r2_c4 = p.v[1]; T.r3_c4 = p.v[2];
  for (int i = 0; i < 3; ++i) vf_root(2 * u[i]);
  const Velocity6D w = logo(T);
  const P3 q = mul(K, p);
  const double d = p.v[0] * u[0] + p.v[1] * u[1] + p.v[2] * u[2];
  for (int i = 0; i < 3; ++i) {
    vf_close(get(w, i + 3), 3.141592653589793 * u[i], 0.03, "the logarithm of a half turn turns by pi about its axis");
    vf_close(get(w, i), d * u[i] - 1.5707963267948966 * q.v[i], 0.1, "linear part of the logarithm of a half turn");
  }
}
VF_R(halfTurnAny) {
  float a[3];
  vf_unitn("u", 3, a);
  const double u[3] = {a[0], a[1], a[2]};
  for (int i = 0; i < 3; ++i) vf_assume(u[i] < 0.999 && u[i] > -0.999);
  const P3 p = lin3("p", 1);
  Transform T;
  const M3 K = skew(u), R = lin(0, K, 2, mul(K, K));
  put(R, T);
  T.r1_c4 = p.v[0]; T.r2_c4 = p.v[1]; T.r3_c4 = p.v[2];
  for (int i = 0; i < 3; ++i) vf_root(2 * u[i]);
  const Velocity6D w = logo(T);
  const P3 q = mul(K, p);
  const double d = p.v[0] * u[0] + p.v[1] * u[1] + p.v[2] * u[2], pi = 3.141592653589793;
  for (int i = 0; i < 3; ++i) {   // either way round
    const int j = (i + 1) % 3;
    vf_close(get(w, i + 3) * get(w, j + 3), pi * pi * u[i] * u[j], 0.3, "the logarithm of a half turn turns by pi about its axis");
    vf_close(get(w, i + 3) * get(w, i + 3), pi * pi * u[i] * u[i], 0.3, "the logarithm of a half turn turns by pi about its axis");
    vf_close(get(w, j + 3) * (get(w, i) - d * u[i]), -pi * pi / 2 * u[j] * q.v[i], 0.5, "linear part of the logarithm of a half turn");
  }
}
