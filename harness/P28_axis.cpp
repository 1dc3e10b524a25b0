// SRC: @core
// BOUND: coordinate axes scaled by [0.125,12], rotations whose projection is defined (norm of the pair of entries used at least 0.1); orthogonal bases: directions with |x| at least 0.7, or in the plane yz at least 0.1 rad away from z, or along z
#include "types.h"
#include "gen.h"
#include <almath/tools/altransformhelpers.h>
using namespace vfg;
static M3 about(int k, double c, double s) {
  M3 r = eye();
  const int i = (k + 1) % 3, j = (k + 2) % 3;
  r.m[i][i] = r.m[j][j] = c; r.m[i][j] = -s; r.m[j][i] = s;
  return r;
}
static Position3D axis(int k) {
  Position3D a;
  const float scale[] = {0.125f, 1, 8};
  at(a, k) = vf_real("len", 1, 1.5) * scale[vf_choice("scale", 3)];
  return a;
}
static Transform project(const Position3D &a, const Transform &t, int how) {
  Transform o = t;
  if (how == 0) return axisRotationProjection(a, t);
  if (how == 1) { axisRotationProjectionInPlace(a, o); return o; }
  Rotation r;
  put(rot(t), r);
  if (how == 2) r = axisRotationProjection(a, r); else axisRotationProjectionInPlace(a, r);
  put(rot(r), o);
  return o;
}
VF_R(already) {
  const int k = vf_choice("axis", 3), how = vf_choice("form", 4);
  const float t = vf_angle("t", -3.1, 3.1, 1);
  const M3 R = about(k, std::cos((double)t), std::sin((double)t));
  Transform T;
  put(R, T);
  T.r1_c4 = vf_real("p", -10, 10); T.r2_c4 = vf_real("p", -10, 10); T.r3_c4 = vf_real("p", -10, 10);
  const Position3D a = axis(k);
  closeT(project(a, T, how), R, pos(T), 1e-4, 0, "a rotation about the axis is its own projection");
}
VF_R(again) {
  const int k = vf_choice("axis", 3), i = (k + 1) % 3, j = (k + 2) % 3;
  Transform T;
  const M3 R = anyM("r");
  put(R, T);
  vf_assume(R.m[i][j] * R.m[i][j] + R.m[j][j] * R.m[j][j] > 0.25);
  vf_bound(R.m[i][j] * R.m[i][j] + R.m[j][j] * R.m[j][j], 0.249, 3);
  Position3D a;
  at(a, k) = 1;
  const Transform S = project(a, T, 1);
  const M3 r = rot(S);
  vf_close(r.m[k][k], 1, 1e-3, "the projection turns about the axis");
  vf_close(r.m[k][i], 0, 1e-3, "the projection turns about the axis"); vf_close(r.m[k][j], 0, 1e-3, "the projection turns about the axis");
  vf_close(r.m[i][k], 0, 1e-3, "the projection turns about the axis"); vf_close(r.m[j][k], 0, 1e-3, "the projection turns about the axis");
  vf_close(r.m[i][i], r.m[j][j], 1e-3, "the projection is a rotation"); vf_close(r.m[i][j], -r.m[j][i], 1e-3, "the projection is a rotation");
  vf_close(r.m[i][i] * r.m[i][i] + r.m[j][i] * r.m[j][i], 1, 1e-3, "the projection is a rotation");
}
static void base(const Position3D &a, const M3 &m, double tol) {
  close(mul(tr(m), m), eye(), tol, "the axes of the base are orthonormal");
  vf_close(det(m), 1, tol, "the base is direct");
}
static Transform ortho(const Position3D &a) {
  if (vf_choice("form", 2)) return orthogonalSpace(a);
  Transform t;
  orthogonalSpace(a, t);
  return t;
}
VF_R(baseX) {
  float u[3];
  vf_unitn("u", 3, u);
  const double sg = vf_choice("side", 2) ? -1 : 1;
  vf_assume(sg * u[0] > 0.7);
  vf_bound(sg * u[0], 0.699, 1);
  vf_bound((double)u[0] * u[0] + (double)u[1] * u[1], 0.489, 1.1);
  const float len = vf_real("len", 1, 1.25);
  vf_root(len);
  Position3D a;
  a.x = u[0] * len; a.y = u[1] * len; a.z = u[2] * len;
  const Transform t = ortho(a);
  const M3 m = rot(t);
  for (int i = 0; i < 3; ++i) vf_close(m.m[i][2], u[i], 1e-4, "the third axis is the direction");
  base(a, m, 1e-2);
  close(pos(t), P3{{0, 0, 0}}, 0, "no translation");
}
VF_R(baseY) {
  const float t = vf_angle("t", 0.1, 3.1, 1), len = vf_real("len", 0.5, 2);
  vf_root(len);
  vf_bound(std::sin((double)t), 0.04, 1);
  Position3D a;
  const double sg = vf_choice("side", 2) ? -1 : 1;
  a.y = sg * len * std::sin((double)t); a.z = len * std::cos((double)t);
  const M3 m = rot(ortho(a));
  vf_close(m.m[1][2], sg * std::sin((double)t), 1e-4, "the third axis is the direction");
  vf_close(m.m[2][2], std::cos((double)t), 1e-4, "the third axis is the direction");
  vf_close(m.m[0][2], 0, 1e-4, "the third axis is the direction");
  base(a, m, 1e-2);
}
VF_R(baseZ) {
  const float len = vf_real("len", 0.5, 2);
  Position3D a;
  a.z = vf_choice("side", 2) ? -len : len;
  const M3 m = rot(ortho(a));
  vf_close(m.m[2][2], a.z > 0 ? 1 : -1, 1e-4, "the third axis is the direction");
  base(a, m, 1e-2);
}
VF_B(refused) {
  Transform t; Rotation r;
  bool a = false, b = false;
  try { axisRotationProjectionInPlace(Position3D(), t); } catch (const std::runtime_error &) { a = true; }
  try { axisRotationProjectionInPlace(Position3D(), r); } catch (const std::runtime_error &) { b = true; }
  vf_assert(a && b, "a null axis is refused");
}
