// SRC: @core
// BOUND: frames with every entry of the rotation block in [-1,1] and translation within 10 m, vectors and transforms with components in [-10,10], angles in [-7,7] rad
#include "types.h"
#include "gen.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
using namespace vfg;
template <class T> static P3 part(const T &v, int k) { return P3{{get(v, k), get(v, k + 1), get(v, k + 2)}}; }
static const double TOL = 2e-5;
// F(frame, in, out) rotates both halves of a 6D value by R (or its transpose)
template <class T, class F> static void six(F f, bool back) {
  const Transform H = anyT("h");
  const T v = anyv<T>("v", 10);
  T o = anyv<T>("old", 10);
  f(H, v, o);
  const M3 R = back ? tr(rot(H)) : rot(H);
  close(part(o, 0), mul(R, part(v, 0)), TOL, "the linear part is rotated by the frame");
  close(part(o, 3), mul(R, part(v, 3)), TOL, "the angular part is rotated by the frame");
}
VF_R(velocity6D) { six<Velocity6D>(changeReferenceVelocity6D, false); }
VF_R(velocity6DBack) { six<Velocity6D>(changeReferenceTransposeVelocity6D, true); }
VF_R(position6D) { six<Position6D>(changeReferencePosition6D, false); }
VF_R(position6DBack) { six<Position6D>(changeReferenceTransposePosition6D, true); }
VF_R(position3D) {
  const Transform H = anyT("h");
  const Position3D v = anyv<Position3D>("v", 10);
  Position3D o = v, q;
  const int back = vf_choice("transpose", 2);
  if (back) { changeReferenceTransposePosition3DInPlace(H, o); changeReferenceTransposePosition3D(H, v, q); }
  else { changeReferencePosition3DInPlace(H, o); changeReferencePosition3D(H, v, q); }
  const M3 R = back ? tr(rot(H)) : rot(H);
  close(part(o, 0), mul(R, part(v, 0)), TOL, "a position is rotated by the frame in place");
  close(part(q, 0), mul(R, part(v, 0)), TOL, "a position is rotated by the frame");
}
VF_R(transform) {
  const Transform H = anyT("h"), T = anyT("t");
  Transform o = anyT("old");
  const int back = vf_choice("transpose", 2);
  if (back) changeReferenceTransposeTransform(H, T, o); else changeReferenceTransform(H, T, o);
  const M3 R = back ? tr(rot(H)) : rot(H);
  closeT(o, mul(R, rot(T)), mul(R, pos(T)), TOL, TOL, "a transform is rotated by the frame, without translation");
}
VF_R(backAndForth) {
  const Transform H = rigidT("h", "p");
  const Position3D v = anyv<Position3D>("v", 10);
  Position3D o, q;
  changeReferencePosition3D(H, v, o);
  changeReferenceTransposePosition3D(H, o, q);
  close(part(q, 0), part(v, 0), 2e-4, "changing the reference back gives the position back");
  const Transform T = anyT("t");
  Transform a, b;
  changeReferenceTransform(H, T, a);
  changeReferenceTransposeTransform(H, a, b);
  closeT(b, T, 2e-5, 2e-4, "changing the reference back gives the transform back");
}
VF_R(pose2D) {
  const float t = vf_angle("t", -7, 7, 1);
  const Pose2D p = anyv<Pose2D>("p", 10);
  Pose2D o = anyv<Pose2D>("old", 10), q = p;
  changeReferencePose2D(t, p, o);
  changeReferencePose2DInPlace(t, q);
  const double c = std::cos((double)t), s = std::sin((double)t);
  vf_close(o.x, c * p.x - s * p.y, TOL, "a pose is rotated"); vf_close(o.y, s * p.x + c * p.y, TOL, "a pose is rotated");
  vf_close(q.x, c * p.x - s * p.y, TOL, "a pose is rotated in place"); vf_close(q.y, s * p.x + c * p.y, TOL, "a pose is rotated in place");
  vf_same(o.theta, p.theta, "the orientation of the pose is kept"); vf_same(q.theta, p.theta, "the orientation of the pose is kept");
}
