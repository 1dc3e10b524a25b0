// SRC: @core
// BOUND: conversions: every float; quaternions and averages: rotations whose quaternion has a real part of at least 0.55 in size (angle up to 1.97 rad), averages of up to 3 (thorough 5) transforms; turns about a coordinate axis also between 2.2 and 4.1 rad; pairs of the identity and a turn about a coordinate axis, of any angle up to 4 rad but 1.9 to 2.2 and 2.9 to 3.4, in both orders; translations within 10 m
#include "gen.h"
#include <almath/scenegraph/almatheigen.h>
using namespace AL::Math;
using namespace vfg;
#ifdef VF_THOROUGH
enum { NMAX = 5 };
#else
enum { NMAX = 3 };
#endif
static void any(Transform &t) { float *p = &t.r1_c1; for (int i = 0; i < 12; ++i) p[i] = vf_float("t"); }
static void same(const Transform &a, const Transform &b, const char *w) { const float *p = &a.r1_c1, *q = &b.r1_c1; for (int i = 0; i < 12; ++i) vf_same(p[i], q[i], w); }
VF_B(matrices) {
  Transform t;
  any(t);
  const float *p = &t.r1_c1;
  const Matrix34f a = toEigenMatrix34(t);
  const Eigen::Matrix3f b = toEigenMatrix3(t);
  const Eigen::AffineCompact3f c = toEigenAffineCompact3(t);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) {
    vf_same(a(i, j), p[4 * i + j], "3x4 matrix");
    vf_same(c.matrix()(i, j), p[4 * i + j], "affine transform");
    if (j < 3) vf_same(b(i, j), p[4 * i + j], "3x3 matrix");
  }
  Transform u, v, w, x;
  toALMathTransform(a, u); same(u, t, "from a 3x4 matrix");
  v = toALMathTransform(a); same(v, t, "from a 3x4 matrix (returned)");
  toALMathTransform(c, w); same(w, t, "from an affine transform");
  x = toALMathTransform(c); same(x, t, "from an affine transform (returned)");
  Eigen::Isometry3f i3 = Eigen::Isometry3f::Identity();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) i3.matrix()(i, j) = p[4 * i + j];
  same(toALMathTransform(i3), t, "from an isometry");
}
VF_B(vectors) {
  const Position3D a(vf_float("x"), vf_float("y"), vf_float("z"));
  const Eigen::Vector3f b = toEigenVector3(a);
  vf_same(b[0], a.x, "vector"); vf_same(b[1], a.y, "vector"); vf_same(b[2], a.z, "vector");
  const Position3D c = toALMathPosition3D(b);
  vf_same(c.x, a.x, "position"); vf_same(c.y, a.y, "position"); vf_same(c.z, a.z, "position");
  Vector6f v;
  for (int i = 0; i < 6; ++i) v[i] = vf_float("v");
  Velocity6D r = toALMathVelocity6D(v), s;
  toALMathVelocity6D(v, s);
  const float *p = &r.xd, *q = &s.xd;
  for (int i = 0; i < 6; ++i) { vf_same(p[i], v[i], "velocity"); vf_same(q[i], v[i], "velocity (out parameter)"); }
}
static Transform make(const M3 &m) {
  Transform t;
  put(m, t);
  t.r1_c4 = vf_real("x", -10, 10); t.r2_c4 = vf_real("x", -10, 10); t.r3_c4 = vf_real("x", -10, 10);
  return t;
}
// a rotation by its quaternion with a large real part
static Q4 quat() {
  float q[4];
  vf_unitn("q", 4, q);
  if (vf_choice("neg", 2)) { vf_assume(q[0] <= -0.55); vf_bound(-q[0], 0.55, 1); } else { vf_assume(q[0] >= 0.55); vf_bound(q[0], 0.55, 1); }
  return Q4{q[0], q[1], q[2], q[3]};
}
VF_R(quaternion) {
  const Q4 q = quat();
  const Eigen::Quaternionf r = toEigenQuaternion<float>(make(qmat(q)));
  const double s = q.w > 0 ? 1 : -1;
  vf_close(r.w(), s * q.w, 2e-5, "quaternion of a transform"); vf_close(r.x(), s * q.x, 2e-5, "quaternion of a transform");
  vf_close(r.y(), s * q.y, 2e-5, "quaternion of a transform"); vf_close(r.z(), s * q.z, 2e-5, "quaternion of a transform");
}
VF_R(equal) {
  const M3 m = qmat(quat());
  const int n = vf_choice("n", NMAX) + 1;
  std::vector<Transform> v;
  double x[3] = {0, 0, 0};
  for (int i = 0; i < n; ++i) { v.push_back(make(m)); for (int k = 0; k < 3; ++k) x[k] += pos(v[i]).v[k] / n; }
  const Transform a = averageTransforms(v);
  close(rot(a), m, 4e-4, "average of equal rotations");
  for (int k = 0; k < 3; ++k) vf_close(pos(a).v[k], x[k], 2e-5, "mean of the translations");
}
static M3 turn(int k, double t) {
  const double c = std::cos(t), s = std::sin(t);
  M3 r = eye();
  const int i = (k + 1) % 3, j = (k + 2) % 3;
  r.m[i][i] = c; r.m[j][j] = c; r.m[i][j] = -s; r.m[j][i] = s;
  return r;
}
VF_R(equalTurns) {
  const int k = vf_choice("axis", 3), n = vf_choice("n", NMAX) + 1;
  const M3 m = turn(k, vf_angle("angle", 2.2, 4.1, 2));
  std::vector<Transform> v;
  for (int i = 0; i < n; ++i) v.push_back(make(m));
  close(rot(averageTransforms(v)), m, 1e-4, "average of equal turns");
}
VF_R(pairs) {
  const double AT[][2] = {{-1.9, 0}, {0, 1.9}, {2.2, 2.9}, {3.4, 4}, {-2.9, -2.2}, {-4, -3.4}};
  const int k = vf_choice("axis", 3), o = vf_choice("order", 2), r = vf_choice("range", 6);
  const float v = vf_angle("angle", AT[r][0], AT[r][1], 4);
  std::vector<Transform> t;
  t.push_back(make(turn(k, o ? 0 : v))); t.push_back(make(turn(k, o ? v : 0)));
  const double h = r == 3 ? v / 2.0 - 3.14159265358979 : r == 5 ? v / 2.0 + 3.14159265358979 : v / 2.0, c = std::cos(h), s = std::sin(h);
  const Transform a = averageTransforms(t);
  const int i = (k + 1) % 3, j = (k + 2) % 3;
  const M3 m = rot(a);
  vf_close(m.m[k][k], 1, 1e-4, "mean of two turns"); vf_close(m.m[k][i], 0, 1e-4, "mean of two turns"); vf_close(m.m[k][j], 0, 1e-4, "mean of two turns");
  vf_close(m.m[i][k], 0, 1e-4, "mean of two turns"); vf_close(m.m[j][k], 0, 1e-4, "mean of two turns");
  vf_close(m.m[i][i], c, 1e-4, "mean of two turns"); vf_close(m.m[j][j], c, 1e-4, "mean of two turns");
  vf_close(m.m[j][i], s, 1e-4, "mean of two turns"); vf_close(m.m[i][j], -s, 1e-4, "mean of two turns");
  for (int x = 0; x < 3; ++x) vf_close(pos(a).v[x], (pos(t[0]).v[x] + pos(t[1]).v[x]) / 2, 2e-5, "mean of the translations");
}
VF_R(empty) {
  bool thrown = false;
  try { averageTransforms(std::vector<Transform>()); } catch (const std::runtime_error &) { thrown = true; }
  vf_assert(thrown, "an empty range is refused");
}
