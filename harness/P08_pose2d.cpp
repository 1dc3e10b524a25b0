// SRC: @core
// BOUND: positions in [-10,10], angles in [-7,7] rad; products of at most three poses
#include "types.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
static Pose2D pose(const char *n, double b = 7) {   // one statement per input: arguments have no evaluation order
  Pose2D r;
  r.x = vf_real(n, -10, 10);
  r.y = vf_real(n, -10, 10);
  r.theta = vf_angle(n, -b, b, 1);
  return r;
}
static double X(const Pose2D &a, double x, double y) { return a.x + std::cos((double)a.theta) * x - std::sin((double)a.theta) * y; }
static double Y(const Pose2D &a, double x, double y) { return a.y + std::sin((double)a.theta) * x + std::cos((double)a.theta) * y; }
static void is(const Pose2D &p, double x, double y, double t, double tol, const char *w) {
  vf_close(p.x, x, tol, w); vf_close(p.y, y, tol, w); vf_close(p.theta, t, tol, w);
}
VF_R(product) {
  const Pose2D a = pose("a"), b = pose("b");
  Pose2D q = a;
  is(a * b, X(a, b.x, b.y), Y(a, b.x, b.y), (double)a.theta + b.theta, 5e-5, "composition");
  Pose2D &r = (q *= b);
  is(q, X(a, b.x, b.y), Y(a, b.x, b.y), (double)a.theta + b.theta, 5e-5, "in-place composition");
  vf_assert(&r == &q, "*= returns its left operand");
  Pose2D s = a;
  s *= s;
  is(s, X(a, a.x, a.y), Y(a, a.x, a.y), 2.0 * a.theta, 5e-5, "squaring in place");
  is(a * Pose2D(), a.x, a.y, a.theta, 1e-6, "right identity");
  is(Pose2D() * a, a.x, a.y, a.theta, 1e-6, "left identity");
}
VF_R(associative) {
  const Pose2D a = pose("a"), b = pose("b"), c = pose("c"), l = (a * b) * c, r = a * (b * c);
  is(l, r.x, r.y, r.theta, 3e-4, "associativity");
}
VF_R(inverse) {
  const Pose2D a = pose("a");
  const int how = vf_choice("form", 5);
  Pose2D i;
  if (how == 0) i = a.inverse();
  else if (how == 1) i = pinv(a);
  else if (how == 2) i = pose2DInverse(a);
  else if (how == 3) pose2DInverse(a, i);
  else { i = a; pose2dInvertInPlace(i); }
  is(a * i, 0, 0, 0, 2e-4, "a * inverse(a) is the identity");
  is(i * a, 0, 0, 0, 2e-4, "inverse(a) * a is the identity");
  is(i, -(std::cos((double)a.theta) * a.x + std::sin((double)a.theta) * a.y), std::sin((double)a.theta) * a.x - std::cos((double)a.theta) * a.y, -(double)a.theta, 5e-5, "inverse");
}
VF_R(diff) {
  const Pose2D a = pose("a"), b = pose("b");
  const Pose2D d = vf_choice("form", 2) ? a.diff(b) : pose2dDiff(a, b), c = a * d;
  is(c, b.x, b.y, b.theta, 4e-4, "a * diff(a, b) is b");
}
VF_R(action) {
  const Pose2D a = pose("a"), b = pose("b");
  const Position2D p = anyv<Position2D>("p", 10);
  const Position2D q = a * p;
  vf_close(q.x, X(a, p.x, p.y), 5e-5, "a pose rotates then translates a position");
  vf_close(q.y, Y(a, p.x, p.y), 5e-5, "a pose rotates then translates a position");
  const Position2D l = (a * b) * p, r = a * (b * p);
  vf_close(l.x, r.x, 4e-4, "composition acts as successive actions");
  vf_close(l.y, r.y, 4e-4, "composition acts as successive actions");
}
VF_R(polar) {
  const float r = vf_real("r", -10, 10), t = vf_angle("t", -7, 7, 1);
  is(Pose2D::fromPolarCoordinates(r, t), r * std::cos((double)t), r * std::sin((double)t), t, 1e-5, "polar construction");
}
VF_R(transform) {
  const Pose2D a = pose("a");
  Transform t;
  if (vf_choice("form", 2)) t = transformFromPose2D(a); else transformFromPose2DInPlace(a, t);
  const double c = std::cos((double)a.theta), s = std::sin((double)a.theta);
  const double m[12] = {c, -s, 0, a.x, s, c, 0, a.y, 0, 0, 1, 0};
  for (int i = 0; i < 12; ++i) vf_close(get(t, i), m[i], 1e-6, "transform of a pose");
}
VF_R(fromTransform) {
  const Pose2D a = pose("a", 3.1);
  const Transform t = transformFromPose2D(a);
  Pose2D b;
  if (vf_choice("form", 2)) b = pose2DFromTransform(t); else pose2DFromTransformInPlace(t, b);
  is(b, a.x, a.y, a.theta, 1e-4, "pose to transform to pose");
}
// the planar part of a transform that also rolls, pitches and rises
VF_R(projectTransform) {
  Transform t = anyv<Transform>("t", 10);
  const double y = vf_angle("yaw", -3.1, 3.1, 1), k = vf_real("k", 0.2, 1);
  t.r1_c1 = k * std::cos(y);
  t.r2_c1 = k * std::sin(y);
  is(pose2DFromTransform(t), t.r1_c4, t.r2_c4, y, 1e-4, "yaw and planar position of a transform");
}
VF_R(changeReference) {
  const Pose2D a = pose("a");
  const float t = vf_angle("t", -7, 7, 1);
  Pose2D o = anyv<Pose2D>("o", 7);
  if (vf_choice("form", 2)) changeReferencePose2D(t, a, o); else { o = a; changeReferencePose2DInPlace(t, o); }
  const Pose2D f(0, 0, t);
  vf_close(o.x, X(f, a.x, a.y), 2e-5, "reference change rotates the position");
  vf_close(o.y, Y(f, a.x, a.y), 2e-5, "reference change rotates the position");
  vf_close(o.theta, a.theta, 0, "reference change keeps the angle");
}
// homogeneous: composition is the transform product
VF_R(homomorphism) {
  const Pose2D a = pose("a"), b = pose("b");
  const Transform l = transformFromPose2D(a * b), r = transformFromPose2D(a) * transformFromPose2D(b);
  for (int i = 0; i < 12; ++i) vf_close(get(l, i), get(r, i), 1e-4, "transform of a composition is the product of transforms");
}
