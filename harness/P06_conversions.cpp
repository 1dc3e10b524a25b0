// SRC: @core
// BOUND: unit quaternions, unit axes, angles in [-2pi,2pi]; quaternion to axis and angle: rotations of at least 0.02 rad from a whole turn; matrix to quaternion: rotation angle of at least 0.35 rad (plus the exact identity); Euler extraction at least 0.2 rad from gimbal lock
#include "gen.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
using namespace AL::Math;
using namespace vfg;
static Quaternion unit(const char *n) { Q4 q = unitQ(n); return Quaternion(q.w, q.x, q.y, q.z); }
static Q4 d(const Quaternion &q) { return Q4{q.w, q.x, q.y, q.z}; }
static void eqq(const Quaternion &a, const Q4 &b, double tol, const char *w) {
  vf_close(a.w, b.w, tol, w); vf_close(a.x, b.x, tol, w); vf_close(a.y, b.y, tol, w); vf_close(a.z, b.z, tol, w);
}
VF_R(toMatrix) {
  Q4 q = unitQ("q");
  Quaternion f(q.w, q.x, q.y, q.z);
  Rotation r, s = rotationFromQuaternion(f);
  rotationFromQuaternion(f, r);
  Transform t = transformFromQuaternion(f);
  close(rot(s), qmat(q), 4e-6, "rotation of a quaternion");
  close(rot(r), qmat(q), 4e-6, "rotation of a quaternion (out parameter)");
  closeT(t, qmat(q), P3{{0, 0, 0}}, 4e-6, 0, "transform of a quaternion");
}
VF_R(morphism) {
  Quaternion a = unit("a"), b = unit("b");
  close(rot(rotationFromQuaternion(a * b)), mul(rot(rotationFromQuaternion(a)), rot(rotationFromQuaternion(b))), 1.5e-4, "matrix of a product is the product of the matrices");
  close(rot(rotationFromQuaternion(a.inverse())), tr(rot(rotationFromQuaternion(a))), 1e-5, "matrix of the inverse is the transpose");
}
VF_R(actsAs) {
  Quaternion q = unit("q");
  Position3D v{vf_real("v", -10, 10), vf_real("v", -10, 10), vf_real("v", -10, 10)}, r = q * v, s = rotationFromQuaternion(q) * v;
  vf_close(r.x, s.x, 2e-4, "q v = R(q) v"); vf_close(r.y, s.y, 2e-4, "q v = R(q) v"); vf_close(r.z, s.z, 2e-4, "q v = R(q) v");
}
VF_R(euler) {
  Rotation3D e{vf_angle("wx", -6.3, 6.3, 2), vf_angle("wy", -6.3, 6.3, 2), vf_angle("wz", -6.3, 6.3, 2)};
  Quaternion q = quaternionFromRotation3D(e), p;
  quaternionFromRotation3D(e, p);
  close(rot(rotationFromQuaternion(q)), rot(transformFromRotation3D(e)), 8e-5, "quaternion of Euler angles");
  close(rot(rotationFromQuaternion(p)), rot(transformFromRotation3D(e)), 8e-5, "quaternion of Euler angles (out parameter)");
  Position6D p6{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10), e.wx, e.wy, e.wz};
  Quaternion q6;
  Position3D x;
  quaternionPosition3DFromPosition6D(p6, q6, x);
  eqq(q6, d(q), 1e-5, "quaternion of a 6D position");
  vf_assert(x.x == p6.x && x.y == p6.y && x.z == p6.z, "position of a 6D position");
}
VF_R(axisangle) {
  float n[3];
  vf_unitn("n", 3, n);
  const float a = vf_angle("angle", -6.3, 6.3, 2);
  Quaternion q = quaternionFromAngleAndAxisRotation(a, n[0], n[1], n[2]), p = Quaternion::fromAngleAndAxisRotation(a, n[0], n[1], n[2]);
  close(rot(rotationFromQuaternion(q)), rot(rotationFromAngleDirection(a, n[0], n[1], n[2])), 2e-5, "quaternion of angle and axis");
  eqq(p, d(q), 1e-5, "static member");
}
// rotations by 0.02 rad to a whole turn less 0.02 rad
VF_R(toaxisangle) {
  float n[3];
  vf_unitn("n", 3, n);
  const double at[] = {0.02, 0.03, 0.05, 0.1, 0.2, 1, 2, 3, 4, 5, 6, 6.1, 6.2, 6.24, 6.26};
  const int r = vf_choice("range", 14);
  const float a = vf_angle("angle", at[r], at[r + 1], 2), tol = r == 0 || r > 11 ? 5e-2 : 1e-2;
  Quaternion q(std::cos(a / 2), n[0] * std::sin(a / 2), n[1] * std::sin(a / 2), n[2] * std::sin(a / 2));
  float A, x, y, z;
  angleAndAxisRotationFromQuaternion(q, A, x, y, z);
  vf_close(A, a, 1e-2, "angle"); vf_close(x, n[0], tol, "axis"); vf_close(y, n[1], tol, "axis"); vf_close(z, n[2], tol, "axis");
  std::vector<float> v = angleAndAxisRotationFromQuaternion(q);
  vf_assert(v.size() == 4, "vector form");
  vf_close(v[0], a, 1e-2, "vector form"); vf_close(v[1], n[0], tol, "vector form"); vf_close(v[2], n[1], tol, "vector form"); vf_close(v[3], n[2], tol, "vector form");
}
// q = (w,v): every unit quaternion with a dominant imaginary component k (margin 1e-4)
// and a known sign of w q_k, at least 0.35 rad from the identity
static void fromMatrix(int k, int sg) {
  float q[4];
  const int neg = vf_choice("neg", 2);
  const double f = vf_qshift("q", k, sg, neg ? -1.42 : 0.5, neg ? -0.5 : 1.42, q);
  const double w = q[0];
  vf_assume(f >= (neg ? -1.42 : 0.5) && f <= (neg ? -0.5 : 1.42));
  for (int j = 1; j < 4; ++j) if (j != k) vf_assume((double)q[k] * q[k] > (double)q[j] * q[j] + 1e-4);
  if (sg > 0) vf_assume(w * q[k] > 1e-4); else vf_assume(w * q[k] < -1e-4);
  if (vf_choice("small", 2)) {
    vf_assume(w <= 0.1 && w >= -0.1);
    vf_bound(w, neg ? -0.1001 : -1e-6, neg ? 1e-6 : 0.1001);
    vf_bound(1 - w * w, 0.9899, 1);
  } else {
    vf_assume(neg ? w < -0.1 && w > -0.984 : w > 0.1 && w < 0.984);
    vf_bound(w, neg ? -0.9841 : 0.0999, neg ? -0.0999 : 0.9841);
    vf_bound(1 - w * w, 0.0299, 0.9901);
  }
  const double n = std::sqrt(1 - w * w);
  vf_root(w);
  vf_root(2 * w);
  vf_root(4 * f * n);
  M3 m = qmat(Q4{q[0], q[1], q[2], q[3]});
  Transform t;
  put(m, t);
  Quaternion r = quaternionFromTransform(t);
  const double s = w > 0 ? 1 : -1;
  eqq(r, Q4{s * w, s * q[1], s * q[2], s * q[3]}, 2e-2, "quaternion of a transform (up to sign, real part not negative)");
}
VF_R(fromMatrixXp) { fromMatrix(1, 1); }
VF_R(fromMatrixXn) { fromMatrix(1, -1); }
VF_R(fromMatrixYp) { fromMatrix(2, 1); }
VF_R(fromMatrixYn) { fromMatrix(2, -1); }
VF_R(fromMatrixZp) { fromMatrix(3, 1); }
VF_R(fromMatrixZn) { fromMatrix(3, -1); }
VF_R(identity) {
  Quaternion r = quaternionFromTransform(Transform());
  eqq(r, Q4{1, 0, 0, 0}, 0, "the identity transform gives the identity quaternion");
}
VF_R(toEuler) {
  Rotation3D e{vf_angle("wx", -6.3, 6.3, 2), vf_angle("wy", -1.2, 1.2, 2), vf_angle("wz", -6.3, 6.3, 2)};
  const float cx = std::cos(e.wx / 2), sx = std::sin(e.wx / 2), cy = std::cos(e.wy / 2), sy = std::sin(e.wy / 2), cz = std::cos(e.wz / 2), sz = std::sin(e.wz / 2);
  Quaternion q(cz * cy * cx + sz * sy * sx, cz * cy * sx - sz * sy * cx, cz * sy * cx + sz * cy * sx, sz * cy * cx - cz * sy * sx);
  q.w = vf_fact(q.w, -1, 1); q.x = vf_fact(q.x, -1, 1); q.y = vf_fact(q.y, -1, 1); q.z = vf_fact(q.z, -1, 1);
  qmat(d(q));
  vf_root(std::cos((double)e.wy));
  Rotation3D f = rotation3DFromQuaternion(q), g;
  rotation3DFromQuaternion(q, g);
  close(rot(transformFromRotation3D(f)), rot(transformFromRotation3D(e)), 1e-2, "Euler angles of a quaternion");
  close(rot(transformFromRotation3D(g)), rot(transformFromRotation3D(e)), 1e-2, "Euler angles of a quaternion (out parameter)");
}
// rounding may push a diagonal or a real part slightly above 1
VF_B(nearIdentityMatrix) {
  Transform t;
  t.r1_c1 = 1 + (vf_choice("d", 4) - 1) * 0x1p-22f; t.r2_c2 = 1 + (vf_choice("d", 4) - 1) * 0x1p-22f; t.r3_c3 = 1 + (vf_choice("d", 4) - 1) * 0x1p-22f;
  const float e = vf_choice("e", 2) ? 0x1p-12f : 0x1p-24f;
  t.r3_c2 = e; t.r2_c3 = -e;
  Quaternion q = quaternionFromTransform(t);
  vf_assert(q.w <= 1.001f && q.w >= 0.999f && q.x <= 0.01f && q.x >= -0.01f && q.y <= 0.01f && q.y >= -0.01f && q.z <= 0.01f && q.z >= -0.01f, "no NaN for a matrix that is the identity within rounding");
}
VF_B(nearIdentityQuaternion) {
  Quaternion q(1 + (vf_choice("w", 17) - 8) * 0x1p-23f, vf_choice("x", 2) ? 0x1p-12f : 0x1p-24f, 0, 0);
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(q, a, x, y, z);
  vf_assert(x >= 0 && x <= 1.1f && y == 0 && z == 0, "no NaN axis for a quaternion that is the identity within rounding");
  vf_assert(a >= 0 && a <= 0.01f, "no NaN angle for a quaternion that is the identity within rounding");
}
