// SRC: @core
// BOUND: angles in [-2pi,2pi], pitch at least 0.2 rad away from +-pi/2 (cos > 0.19), plus the exact gimbal-lock matrices; positions in [-10,10]
#include "gen.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
using namespace AL::Math;
using namespace vfg;
static M3 euler(double x, double y, double z) {
  const double cx = std::cos(x), sx = std::sin(x), cy = std::cos(y), sy = std::sin(y), cz = std::cos(z), sz = std::sin(z);
  M3 r;
  r.m[0][0] = cz * cy; r.m[0][1] = cz * sy * sx - sz * cx; r.m[0][2] = cz * sy * cx + sz * sx;
  r.m[1][0] = sz * cy; r.m[1][1] = sz * sy * sx + cz * cx; r.m[1][2] = sz * sy * cx - cz * sx;
  r.m[2][0] = -sy; r.m[2][1] = cy * sx; r.m[2][2] = cy * cx;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = vf_fact(r.m[i][j], -1, 1);
  return r;
}
static void check(const Rotation3D &f, const M3 &m) {
  close(rot(transformFromRotation3D(f)), m, 1e-3, "the extracted angles rebuild the rotation");
  vf_assert(f.wx <= 3.16f && f.wx >= -3.16f && f.wz <= 3.16f && f.wz >= -3.16f, "roll and yaw are in [-pi,pi]");
  vf_assert(f.wy <= 1.59f && f.wy >= -1.59f, "pitch is in [-pi/2,pi/2]");
}
static void all(const Transform &t, const M3 &m, const P3 &p) {
  Position6D a = position6DFromTransform(t), b;
  position6DFromTransformInPlace(t, b);
  check(Rotation3D(a.wx, a.wy, a.wz), m);
  check(Rotation3D(b.wx, b.wy, b.wz), m);
  close(P3{{a.x, a.y, a.z}}, p, 0, "translation is extracted exactly");
  close(P3{{b.x, b.y, b.z}}, p, 0, "translation is extracted exactly");
  check(rotation3DFromTransform(t), m);
  check(rotation3DFromRotation(rotationFromTransform(t)), m);
  Transform u = transformFromPosition6D(a);
  closeT(u, m, p, 1e-3, 1e-5, "transform to 6D position to transform");
}
static void regular(double lo, double hi) {
  Rotation3D e{vf_angle("wx", -6.3, 6.3, 1), vf_angle("wy", lo, hi, 1), vf_angle("wz", -6.3, 6.3, 1)};
  M3 m = euler(e.wx, e.wy, e.wz);
  vf_root(std::cos((double)e.wy));
  Transform t;
  put(m, t);
  t.r1_c4 = vf_real("p", -10, 10); t.r2_c4 = vf_real("p", -10, 10); t.r3_c4 = vf_real("p", -10, 10);
  all(t, m, pos(t));
}
VF_R(pitchInside) { regular(-1.37, 1.37); }
VF_R(pitchBeyond) { regular(1.77, 4.5); }
// 6D position -> transform -> 6D position
VF_R(sixD) {
  Position6D p{vf_real("p", -10, 10), vf_real("p", -10, 10), vf_real("p", -10, 10), vf_angle("wx", -3.1, 3.1, 1), vf_angle("wy", -1.37, 1.37, 1), vf_angle("wz", -3.1, 3.1, 1)};
  M3 m = euler(p.wx, p.wy, p.wz);
  vf_root(std::cos((double)p.wy));
  Transform t = transformFromPosition6D(p);
  closeT(t, m, P3{{p.x, p.y, p.z}}, 1e-5, 1e-5, "transform of a 6D position");
  Position6D q = position6DFromTransform(t);
  vf_close(q.x, p.x, 1e-5, "x"); vf_close(q.y, p.y, 1e-5, "y"); vf_close(q.z, p.z, 1e-5, "z");
  vf_close(q.wx, p.wx, 1e-3, "roll comes back"); vf_close(q.wy, p.wy, 1e-3, "pitch comes back"); vf_close(q.wz, p.wz, 1e-3, "yaw comes back");
  Rotation3D r = rotation3DFromRotation(rotationFromTransform(transformFromRotation3D(Rotation3D(p.wx, p.wy, p.wz))));
  vf_close(r.wx, p.wx, 1e-3, "roll comes back (rotation)"); vf_close(r.wy, p.wy, 1e-3, "pitch comes back (rotation)"); vf_close(r.wz, p.wz, 1e-3, "yaw comes back (rotation)");
}
// pitch of exactly +-pi/2: yaw and roll are not unique, the rotation must still come back
VF_R(gimbal) {
  const double s = vf_choice("sign", 2) ? 1 : -1, a = vf_angle("a", -3.1, 3.1, 1);
  M3 m;
  m.m[0][0] = m.m[1][0] = m.m[2][1] = m.m[2][2] = 0;
  m.m[2][0] = -s;
  m.m[0][1] = s * std::sin(a); m.m[0][2] = s * std::cos(a);
  m.m[1][1] = std::cos(a); m.m[1][2] = -std::sin(a);
  Transform t;
  put(m, t);
  t.r1_c4 = vf_real("p", -10, 10); t.r2_c4 = vf_real("p", -10, 10); t.r3_c4 = vf_real("p", -10, 10);
  all(t, m, pos(t));
}
