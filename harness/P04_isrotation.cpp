// SRC: @core
// BOUND: matrix entries in [-2,2] (decision), [-3,3] (normalisation); tolerances in [1e-5,0.1]; one entry NaN or infinite with the others arbitrary floats
#include "gen.h"
#include <almath/tools/altransformhelpers.h>
using namespace AL::Math;
using namespace vfg;
static M3 freeM(const char *n, double b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = vf_real(n, -b, b); return r; }
VF_R(accepts) {
  Transform t = rigidT("q", "p");
  Rotation r;
  put(rot(t), r);
  vf_assert(t.isTransform(), "a rigid transform is one");
  vf_assert(r.isRotation(), "a rotation matrix is one");
  vf_assert(t.isTransform(1e-4f), "a rigid transform is one (explicit tolerance)");
  vf_assert(r.isRotation(1e-4f), "a rotation matrix is one (explicit tolerance)");
}
// the verdict is exactly: every orthonormality residual and det-1 is within the tolerance
static void residuals(const M3 &m, double *d) {
  int k = 0;
  const int A[3] = {1, 2, 2}, B[3] = {0, 0, 1};
  for (int i = 0; i < 3; ++i) d[k++] = m.m[0][A[i]] * m.m[0][B[i]] + m.m[1][A[i]] * m.m[1][B[i]] + m.m[2][A[i]] * m.m[2][B[i]];
  for (int i = 0; i < 3; ++i) d[k++] = m.m[i][0] * m.m[i][0] + m.m[i][1] * m.m[i][1] + m.m[i][2] * m.m[i][2] - 1;
  d[6] = det(m) - 1;
}
VF_R(rejectsT) {
  Transform t;
  M3 m = freeM("m", 2);
  put(m, t);
  const float eps = vf_real("eps", 1e-3, 0.1);
  double d[7];
  residuals(m, d);
  const int k = vf_choice("residual", 7);
  vf_assume(d[k] > eps + 2e-4 || d[k] < -eps - 2e-4);
  const bool ok = t.isTransform(eps);
  vf_assert(!ok, "a residual beyond the tolerance is rejected");
}
VF_R(rejectsR) {
  Rotation t;
  M3 m = freeM("m", 2);
  put(m, t);
  const float eps = vf_real("eps", 1e-3, 0.1);
  double d[7];
  residuals(m, d);
  const int k = vf_choice("residual", 7);
  vf_assume(d[k] > eps + 2e-4 || d[k] < -eps - 2e-4);
  const bool ok = t.isRotation(eps);
  vf_assert(!ok, "a residual beyond the tolerance is rejected");
}
VF_B(nonfinite) {
  float e[12];
  for (int i = 0; i < 9; ++i) e[i] = vf_float("e");
  const int k = vf_choice("k", 9), w = vf_choice("w", 3);
  e[k] = w == 0 ? NAN : w == 1 ? INFINITY : -INFINITY;
  Transform t;
  t.r1_c1 = e[0]; t.r1_c2 = e[1]; t.r1_c3 = e[2]; t.r2_c1 = e[3]; t.r2_c2 = e[4]; t.r2_c3 = e[5]; t.r3_c1 = e[6]; t.r3_c2 = e[7]; t.r3_c3 = e[8];
  Rotation r;
  r.r1_c1 = e[0]; r.r1_c2 = e[1]; r.r1_c3 = e[2]; r.r2_c1 = e[3]; r.r2_c2 = e[4]; r.r2_c3 = e[5]; r.r3_c1 = e[6]; r.r3_c2 = e[7]; r.r3_c3 = e[8];
  vf_lazy(1);
  if (vf_choice("type", 2)) vf_assert(!t.isTransform(), "a matrix with a non-finite entry is not a transform");
  else vf_assert(!r.isRotation(), "a matrix with a non-finite entry is not a rotation");
}
// Every matrix with independent second and third columns is (any | c R3 + d R2 | s R3)
// for one rotation R=(R1|R2|R3), s>0, d>0: normalisation must return that R.
static M3 skewed(M3 &want) {
  want = qmat(unitQ("q"));
  const double s = vf_real("s", 0.75, 1.5), c = vf_real("c", -0.5, 0.5), d = vf_real("d", 0.75, 1.5);
  const double k2[] = {1, 0.03125, 64}, f2 = k2[vf_choice("scale2", 3)], f3 = k2[vf_choice("scale3", 3)];
  M3 m;
  for (int i = 0; i < 3; ++i) {
    m.m[i][0] = vf_real("first", -4, 4);
    m.m[i][1] = f2 * (c * want.m[i][2] + d * want.m[i][1]);
    m.m[i][2] = f3 * (s * want.m[i][2]);
  }
  return m;
}
VF_R(normalizeT) {
  M3 want;
  const M3 m = skewed(want);
  Transform t;
  put(m, t);
  t.r1_c4 = vf_real("p", -10, 10); t.r2_c4 = vf_real("p", -10, 10); t.r3_c4 = vf_real("p", -10, 10);
  const P3 p = pos(t);
  if (vf_choice("api", 2)) t.normalizeTransform(); else normalizeTransform(t);
  close(pos(t), p, 0, "normalisation keeps the translation");
  close(rot(t), want, 8e-3, "normalised block is the rotation of the last two columns");
}
VF_R(normalizeR) {
  M3 want;
  const M3 m = skewed(want);
  Rotation t;
  put(m, t);
  if (vf_choice("api", 2)) t.normalizeRotation(); else normalizeRotation(t);
  close(rot(t), want, 8e-3, "normalised block is the rotation of the last two columns");
}
VF_R(fixpoint) {
  Transform t = rigidT("q", "p"), u = t;
  Rotation r, s;
  put(rot(t), r);
  s = r;
  t.normalizeTransform();
  r.normalizeRotation();
  closeT(t, rot(u), pos(u), 3e-4, 1e-5, "normalising a rigid transform changes nothing");
  close(rot(r), rot(s), 3e-4, "normalising a rotation changes nothing");
}
// degenerate input: identity
VF_R(degenerate) {
  const int k = vf_choice("k", 3);
  M3 m = freeM("m", 2);
  if (k == 0) {
    for (int i = 0; i < 3; ++i) m.m[i][2] = vf_real("tiny", -3e-5, 3e-5);
  } else if (k == 1) {
    for (int i = 0; i < 3; ++i) m.m[i][1] = vf_real("tiny", -3e-5, 3e-5), m.m[i][2] = i == 1 ? 2 : 0;
  } else {   // second column parallel to the third
    const double s = vf_real("s", 0.01, 4), c = vf_real("c", -4, 4);
    const int a = vf_choice("axis", 3);
    for (int i = 0; i < 3; ++i) m.m[i][1] = i == a ? c : 0, m.m[i][2] = i == a ? s : 0;
  }
  Transform t;
  Rotation r;
  put(m, t);
  put(m, r);
  t.r1_c4 = vf_real("p", -10, 10); t.r2_c4 = vf_real("p", -10, 10); t.r3_c4 = vf_real("p", -10, 10);
  const P3 p = pos(t);
  t.normalizeTransform();
  r.normalizeRotation();
  closeT(t, eye(), p, 0, 0, "a degenerate rotation block becomes the identity");
  close(rot(r), eye(), 0, "a degenerate rotation becomes the identity");
}
VF_R(vectorctor) {
  Transform t = rigidT("q", "p");
  std::vector<float> v = t.toVector();
  Transform u(v);
  closeT(u, rot(t), pos(t), 3e-6, 1e-5, "a rigid transform survives the vector constructor");
}
