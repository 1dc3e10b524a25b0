// SRC: @core
// BOUND: copies: every float bit pattern; products, inertia and differences: components in [-10,10]; axes: from any unit quaternion
#include "types.h"
#include "gen.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
using namespace vfg;
template <class T> static void is(const T &v, std::initializer_list<float> e, const char *w) {
  int i = 0;
  for (float x : e) vf_same(get(v, i++), x, w);
  vf_assert(i == N<T>::n, "all the components are checked");
}
template <class O, class I, class F> static O into(F f, const I &in, const char *n) {   // through an output argument with arbitrary old content
  O o = rawv<O>(n);
  f(in, o);
  return o;
}
VF_B(planar) {
  const Pose2D p = rawv<Pose2D>("p");
  const Position2D q = rawv<Position2D>("q");
  const Position6D s = rawv<Position6D>("s");
  const float a = vf_float("a");
  is(position2DFromPose2D(p), {p.x, p.y}, "position of a pose");
  is(into<Position2D>(position2DFromPose2DInPlace, p, "o1"), {p.x, p.y}, "position of a pose");
  is(position6DFromPose2D(p), {p.x, p.y, 0, 0, 0, p.theta}, "6D position of a pose");
  is(into<Position6D>(position6DFromPose2DInPlace, p, "o2"), {p.x, p.y, 0, 0, 0, p.theta}, "6D position of a pose");
  is(pose2DFromPosition6D(s), {s.x, s.y, s.wz}, "pose of a 6D position");
  is(into<Pose2D>(pose2DFromPosition6DInPlace, s, "o3"), {s.x, s.y, s.wz}, "pose of a 6D position");
  is(pose2DFromPosition2D(q, a), {q.x, q.y, a}, "pose of a position");
  is(pose2DFromPosition2D(q), {q.x, q.y, 0}, "pose of a position");
  Pose2D o = rawv<Pose2D>("o4");
  pose2DFromPosition2DInPlace(q, a, o);
  is(o, {q.x, q.y, a}, "pose of a position");
}
VF_B(spatial) {
  const Position3D p = rawv<Position3D>("p");
  const Position6D s = rawv<Position6D>("s");
  const Velocity6D v = rawv<Velocity6D>("v");
  is(position6DFromPosition3D(p), {p.x, p.y, p.z, 0, 0, 0}, "6D position of a position");
  is(into<Position6D>(position6DFromPosition3DInPlace, p, "o1"), {p.x, p.y, p.z, 0, 0, 0}, "6D position of a position");
  is(position3DFromPosition6D(s), {s.x, s.y, s.z}, "position of a 6D position");
  is(position6DFromVelocity6D(v), {v.xd, v.yd, v.zd, v.wxd, v.wyd, v.wzd}, "6D position of a velocity");
}
VF_B(transforms) {
  const Transform t = rawv<Transform>("t");
  const Rotation r = rawv<Rotation>("r");
  const Position3D p = rawv<Position3D>("p");
  const float x = vf_float("x"), y = vf_float("y"), z = vf_float("z");
  is(rotationFromTransform(t), {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2, t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3}, "rotation of a transform");
  is(into<Rotation>(rotationFromTransformInPlace, t, "o1"), {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2, t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3}, "rotation of a transform");
  is(position3DFromTransform(t), {t.r1_c4, t.r2_c4, t.r3_c4}, "position of a transform");
  is(into<Position3D>(position3DFromTransformInPlace, t, "o2"), {t.r1_c4, t.r2_c4, t.r3_c4}, "position of a transform");
  is(position2DFromTransform(t), {t.r1_c4, t.r2_c4}, "planar position of a transform");
  is(into<Position2D>(position2DFromTransformInPlace, t, "o3"), {t.r1_c4, t.r2_c4}, "planar position of a transform");
  is(transformFromPosition3D(p), {1, 0, 0, p.x, 0, 1, 0, p.y, 0, 0, 1, p.z}, "transform of a position");
  is(transformFromRotation(r), {r.r1_c1, r.r1_c2, r.r1_c3, 0, r.r2_c1, r.r2_c2, r.r2_c3, 0, r.r3_c1, r.r3_c2, r.r3_c3, 0}, "transform of a rotation");
  is(transformFromRotationPosition3D(r, x, y, z), {r.r1_c1, r.r1_c2, r.r1_c3, x, r.r2_c1, r.r2_c2, r.r2_c3, y, r.r3_c1, r.r3_c2, r.r3_c3, z}, "transform of a rotation and a position");
  is(transformFromRotationPosition3D(r, p), {r.r1_c1, r.r1_c2, r.r1_c3, p.x, r.r2_c1, r.r2_c2, r.r2_c3, p.y, r.r3_c1, r.r3_c2, r.r3_c3, p.z}, "transform of a rotation and a position");
  Transform a = t, b = t;
  transformFromPosition3DInPlace(p, a);
  is(a, {t.r1_c1, t.r1_c2, t.r1_c3, p.x, t.r2_c1, t.r2_c2, t.r2_c3, p.y, t.r3_c1, t.r3_c2, t.r3_c3, p.z}, "setting the position keeps the rotation");
  transformFromRotationInPlace(r, b);
  is(b, {r.r1_c1, r.r1_c2, r.r1_c3, t.r1_c4, r.r2_c1, r.r2_c2, r.r2_c3, t.r2_c4, r.r3_c1, r.r3_c2, r.r3_c3, t.r3_c4}, "setting the rotation keeps the position");
}
static P3 vec(const Position3D &v) { return P3{{v.x, v.y, v.z}}; }
VF_R(products) {
  const Transform T = anyT("t");
  const Rotation R = anyR("r");
  const Position2D p = anyv<Position2D>("p", 10);
  const Velocity3D v = anyv<Velocity3D>("v", 10);
  const Position3D q = anyv<Position3D>("q", 10);
  const Position6D s = anyv<Position6D>("s", 10);
  const float k = vf_real("k", -10, 10);
  close(vec(T * p), add(mul(rot(T), P3{{p.x, p.y, 0}}), pos(T)), 3e-5, "a transform moves a planar position as a point of the plane z=0");
  const Velocity3D w = R * v;
  close(P3{{w.xd, w.yd, w.zd}}, mul(rot(R), P3{{v.xd, v.yd, v.zd}}), 3e-5, "a rotation rotates a velocity");
  const Velocity6D a = k * s;
  for (int i = 0; i < 6; ++i) vf_close(get(a, i), (double)k * get(s, i), 2e-5, "a scalar times a 6D position is the velocity");
  const Velocity3D b = k * q;
  for (int i = 0; i < 3; ++i) vf_close(get(b, i), (double)k * get(q, i), 2e-5, "a scalar times a position is the velocity");
}
VF_R(inertia) {
  const Position3D p = anyv<Position3D>("p", 10);
  const float m = vf_real("m", 0, 10);
  std::vector<float> I(vf_choice("size", 2) * 10, 1.f);
  pointMassRotationalInertia(m, p, I);
  vf_assert(I.size() == 9, "the inertia has nine terms");
  const double v[3] = {p.x, p.y, p.z}, n = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_close(I[3 * i + j], m * ((i == j) * n - v[i] * v[j]), 2e-3, "inertia of a point mass");
}
VF_R(difference) {
  const Transform A = anyT("a"), B = anyT("b");
  Position6D d;
  if (vf_choice("form", 2)) d = position6DFromTransformDiff(A, B); else position6DFromTransformDiffInPlace(A, B, d);
  const M3 a = rot(A), b = rot(B);
  double w[3] = {0, 0, 0};   // half the sum of the cross products of the axes
  for (int c = 0; c < 3; ++c) for (int i = 0; i < 3; ++i) w[i] += 0.5 * (a.m[(i + 1) % 3][c] * b.m[(i + 2) % 3][c] - a.m[(i + 2) % 3][c] * b.m[(i + 1) % 3][c]);
  for (int i = 0; i < 3; ++i) {
    vf_close(get(d, i), pos(B).v[i] - pos(A).v[i], 1e-5, "linear part of the difference of two transforms");
    vf_close(get(d, i + 3), w[i], 1e-5, "angular part of the difference of two transforms");
  }
}
VF_R(axes) {
  const M3 R = qmat(unitQ("q"));
  Position3D a[3];
  for (int c = 0; c < 3; ++c) { a[c].x = R.m[0][c]; a[c].y = R.m[1][c]; a[c].z = R.m[2][c]; }
  const int how = vf_choice("axes", 4);
  const Rotation r = how == 0 ? rotationFromAxesXY(a[0], a[1]) : how == 1 ? rotationFromAxesXZ(a[0], a[2]) : how == 2 ? rotationFromAxesYZ(a[1], a[2]) : rotationFromAxesXYZ(a[0], a[1], a[2]);
  close(rot(r), R, 1e-5, "the columns of the rotation are the axes");
}
VF_R(quaternionPosition) {
  const Position3D p = anyv<Position3D>("p", 10);
  float w[3];
  for (int i = 0; i < 3; ++i) w[i] = vf_angle("w", -7, 7, 2);
  Quaternion q; Position3D o;
  quaternionPosition3DFromPosition6D(Position6D(p.x, p.y, p.z, w[0], w[1], w[2]), q, o);
  close(vec(o), vec(p), 0, "position part");
  const Transform t = transformFromPosition6D(Position6D(p.x, p.y, p.z, w[0], w[1], w[2]));
  close(qmat(Q4{q.w, q.x, q.y, q.z}), rot(t), 1e-4, "rotation part");
}
