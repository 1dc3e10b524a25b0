// SRC: @core
// BOUND: angles in [-7,7] rad; axes exactly unit or of squared norm outside [0.9,1.1]; translations in [-10,10]
#include "gen.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/types/alaxismask.h>
#include <stdexcept>
using namespace AL::Math;
using namespace vfg;
static M3 RX(double c, double s) { return M3{{{1, 0, 0}, {0, c, -s}, {0, s, c}}}; }
static M3 RY(double c, double s) { return M3{{{c, 0, s}, {0, 1, 0}, {-s, 0, c}}}; }
static M3 RZ(double c, double s) { return M3{{{c, -s, 0}, {s, c, 0}, {0, 0, 1}}}; }
#define ANG(n) vf_angle(n, -7, 7, 1)
VF_R(axes) {
  float a = ANG("a");
  double c = std::cos((double)a), s = std::sin((double)a);
  const P3 o{{0, 0, 0}};
  close(rot(rotationFromRotX(a)), RX(c, s), 1e-6, "rotationFromRotX");
  close(rot(rotationFromRotY(a)), RY(c, s), 1e-6, "rotationFromRotY");
  close(rot(rotationFromRotZ(a)), RZ(c, s), 1e-6, "rotationFromRotZ");
  close(rot(Rotation::fromRotX(a)), RX(c, s), 1e-6, "Rotation::fromRotX");
  close(rot(Rotation::fromRotY(a)), RY(c, s), 1e-6, "Rotation::fromRotY");
  close(rot(Rotation::fromRotZ(a)), RZ(c, s), 1e-6, "Rotation::fromRotZ");
  closeT(transformFromRotX(a), RX(c, s), o, 1e-6, 0, "transformFromRotX");
  closeT(transformFromRotY(a), RY(c, s), o, 1e-6, 0, "transformFromRotY");
  closeT(transformFromRotZ(a), RZ(c, s), o, 1e-6, 0, "transformFromRotZ");
  closeT(Transform::fromRotX(a), RX(c, s), o, 1e-6, 0, "Transform::fromRotX");
  closeT(Transform::fromRotY(a), RY(c, s), o, 1e-6, 0, "Transform::fromRotY");
  closeT(Transform::fromRotZ(a), RZ(c, s), o, 1e-6, 0, "Transform::fromRotZ");
}
VF_R(euler) {
  float wx = ANG("wx"), wy = ANG("wy"), wz = ANG("wz");
  float x = vf_real("x", -10, 10), y = vf_real("y", -10, 10), z = vf_real("z", -10, 10);
  const M3 m = mul(RZ(std::cos((double)wz), std::sin((double)wz)), mul(RY(std::cos((double)wy), std::sin((double)wy)), RX(std::cos((double)wx), std::sin((double)wx))));
  const P3 o{{0, 0, 0}}, p{{x, y, z}};
  close(rot(rotationFrom3DRotation(wx, wy, wz)), m, 6e-6, "rotationFrom3DRotation = Rz Ry Rx");
  close(rot(Rotation::from3DRotation(wx, wy, wz)), m, 6e-6, "Rotation::from3DRotation");
  closeT(transformFrom3DRotation(wx, wy, wz), m, o, 6e-6, 0, "transformFrom3DRotation");
  closeT(Transform::from3DRotation(wx, wy, wz), m, o, 6e-6, 0, "Transform::from3DRotation");
  closeT(transformFromPosition(x, y, z, wx, wy, wz), m, p, 6e-6, 1e-5, "transformFromPosition with angles");
  closeT(Transform::fromPosition(x, y, z, wx, wy, wz), m, p, 6e-6, 1e-5, "Transform::fromPosition with angles");
  closeT(transformFromPosition6D(Position6D(x, y, z, wx, wy, wz)), m, p, 6e-6, 1e-5, "transformFromPosition6D");
  closeT(transformFromRotation3D(Rotation3D(wx, wy, wz)), m, o, 6e-6, 0, "transformFromRotation3D");
}
VF_R(translation) {
  float x = vf_real("x", -10, 10), y = vf_real("y", -10, 10), z = vf_real("z", -10, 10);
  const P3 p{{x, y, z}};
  closeT(transformFromPosition(x, y, z), eye(), p, 1e-6, 1e-5, "transformFromPosition");
  closeT(Transform::fromPosition(x, y, z), eye(), p, 1e-6, 1e-5, "Transform::fromPosition");
  closeT(transformFromPosition3D(Position3D(x, y, z)), eye(), p, 1e-6, 1e-5, "transformFromPosition3D");
  Transform t = anyT("t"), u = t;
  transformFromPosition3DInPlace(Position3D(x, y, z), t);
  closeT(t, rot(u), p, 1e-6, 1e-5, "transformFromPosition3DInPlace only sets the translation");
}
VF_R(rodrigues) {
  float n[3], a = ANG("a");
  vf_unitn("n", 3, n);
  const double c = std::cos((double)a), s = std::sin((double)a), x = n[0], y = n[1], z = n[2], d = 1 - c;
  const M3 m{{{c + d * x * x, d * x * y - s * z, d * x * z + s * y}, {d * x * y + s * z, c + d * y * y, d * y * z - s * x}, {d * x * z - s * y, d * y * z + s * x, c + d * z * z}}};
  bool th = false;
  Rotation r;
  try { r = rotationFromAngleDirection(a, n[0], n[1], n[2]); } catch (const std::exception &) { th = true; }
  vf_assert(!th, "unit directions are accepted");
  close(rot(r), m, 3e-6, "rotationFromAngleDirection");
  close(rot(Rotation::fromAngleDirection(a, n[0], n[1], n[2])), m, 3e-6, "Rotation::fromAngleDirection");
  close(rot(rotationFromAngleDirection(a, Position3D(n[0], n[1], n[2]))), m, 3e-6, "rotationFromAngleDirection of a vector");
}
VF_R(direction_norm) {
  float a = ANG("a"), x = vf_real("x", -3, 3), y = vf_real("y", -3, 3), z = vf_real("z", -3, 3);
  const double n2 = (double)x * x + (double)y * y + (double)z * z;
  vf_assume(n2 < 0.9998 || n2 > 1.0002);
  bool th = false, th2 = false, th3 = false;
  try { rotationFromAngleDirection(a, x, y, z); } catch (const std::runtime_error &) { th = true; }
  vf_assert(th, "a direction that is not unit is rejected");
  try { rotationFromAngleDirection(a, Position3D(x, y, z)); } catch (const std::runtime_error &) { th2 = true; }
  vf_assert(th2, "a direction vector that is not unit is rejected");
  try { Rotation::fromAngleDirection(a, x, y, z); } catch (const std::runtime_error &) { th3 = true; }
  vf_assert(th3, "a direction that is not unit is rejected (static)");
}
VF_R(quaternion) {
  float q[4];
  vf_unitn("q", 4, q);
  const M3 m = qmat(Q4{q[0], q[1], q[2], q[3]});
  close(rot(rotationFromQuaternion(q[0], q[1], q[2], q[3])), m, 4e-6, "rotationFromQuaternion(a,b,c,d)");
  close(rot(Rotation::fromQuaternion(q[0], q[1], q[2], q[3])), m, 4e-6, "Rotation::fromQuaternion");
  close(rot(rotationFromQuaternion(Quaternion(q[0], q[1], q[2], q[3]))), m, 4e-6, "rotationFromQuaternion(q)");
  Rotation r;
  rotationFromQuaternion(Quaternion(q[0], q[1], q[2], q[3]), r);
  close(rot(r), m, 4e-6, "rotationFromQuaternion(q, r)");
  closeT(transformFromQuaternion(Quaternion(q[0], q[1], q[2], q[3])), m, P3{{0, 0, 0}}, 4e-6, 0, "transformFromQuaternion");
}
VF_R(rotvec) {
  float a = ANG("a"), x = vf_real("x", -10, 10), y = vf_real("y", -10, 10), z = vf_real("z", -10, 10);
  const double c = std::cos((double)a), s = std::sin((double)a);
  const int k = vf_choice("axis", 5);
  const int mask[5] = {AXIS_MASK_X, AXIS_MASK_Y, AXIS_MASK_Z, AXIS_MASK_WX, 0};
  M3 m = k == 0 ? RX(c, s) : k == 1 ? RY(c, s) : k == 2 ? RZ(c, s) : eye();
  const P3 p{{x, y, z}}, o{{0, 0, 0}};
  closeT(transformFromRotVec(mask[k], a, Position3D(x, y, z)), m, p, 1e-6, 1e-5, "transformFromRotVec(axis, angle, position)");
  closeT(transformFromRotVec(mask[k], a), m, o, 1e-6, 1e-5, "transformFromRotVec(axis, angle)");
  closeT(transformFromRotVec(Position3D(x, y, z)), eye(), p, 1e-6, 1e-5, "transformFromRotVec(position)");
  Transform t = anyT("t"), u = anyT("t");
  transformFromRotVecInPlace(mask[k], a, Position3D(x, y, z), t);
  closeT(t, m, p, 1e-6, 1e-5, "transformFromRotVecInPlace overwrites its output");
  transformFromRotVecInPlace(Position3D(x, y, z), u);
  closeT(u, eye(), p, 1e-6, 1e-5, "transformFromRotVecInPlace(position) overwrites its output");
}
VF_R(axesframe) {
  const M3 m = qmat(unitQ("q"));
  Position3D X(m.m[0][0], m.m[1][0], m.m[2][0]), Y(m.m[0][1], m.m[1][1], m.m[2][1]), Z(m.m[0][2], m.m[1][2], m.m[2][2]);
  close(rot(rotationFromAxesXY(X, Y)), m, 5e-6, "rotationFromAxesXY");
  close(rot(rotationFromAxesXZ(X, Z)), m, 5e-6, "rotationFromAxesXZ");
  close(rot(rotationFromAxesYZ(Y, Z)), m, 5e-6, "rotationFromAxesYZ");
  close(rot(rotationFromAxesXYZ(X, Y, Z)), m, 5e-6, "rotationFromAxesXYZ");
}
