// SRC: @core src/types/occupancymapparams.cpp
// BOUND: maps of 1 to 4000 pixels, 0.01 to 1 m per pixel, centres and positions within 100 m, pixels within 4000 of the origin; roundToInt: every float below 1e5
#include "types.h"
#include <almath/types/occupancymapparams.h>
static const double AT[] = {0.01, 0.02, 0.05, 0.1, 0.25, 0.5, 1};
static float scale() { const int i = vf_choice("scale", 6); return vf_real("mpp", AT[i], AT[i + 1]); }
static OccupancyMapParams params(float s) {
  const int n = vf_int("size", 1, 4000);
  const float x = vf_real("cx", -100, 100), y = vf_real("cy", -100, 100);
  return OccupancyMapParams(n, s, Position2D(x, y));
}
VF_R(origin) {
  const float s = scale();
  const int n = vf_int("size", 1, 4000);
  const float x = vf_real("cx", -100, 100), y = vf_real("cy", -100, 100), t = vf_real("threshold", 0, 1);
  OccupancyMapParams p(n, s, Position2D(x, y), t);
  vf_assert(p.size == n, "size");
  vf_same(p.metersPerPixel, s, "resolution");
  vf_same(p.getObstacleProbabilityThreshold(), t, "obstacle threshold");
  vf_same(OccupancyMapParams(n, s, Position2D(x, y)).getObstacleProbabilityThreshold(), 0.25f, "default obstacle threshold");
  const double h = n * 0.5 * s;
  vf_close(p.originOffset.x, x - h, 2e-3, "the origin is the upper left corner");
  vf_close(p.originOffset.y, y + h, 2e-3, "the origin is the upper left corner");
  const Position2D o = p.getPositionFromPixel(Point2Di(0, 0));
  vf_close(o.x, x - h, 2e-3, "position of the first pixel"); vf_close(o.y, y + h, 2e-3, "position of the first pixel");
  const float x2 = vf_real("cx", -100, 100), y2 = vf_real("cy", -100, 100);
  p.initOriginOffset(Position2D(x2, y2));
  vf_close(p.originOffset.x, x2 - h, 2e-3, "the origin follows the centre");
  vf_close(p.originOffset.y, y2 + h, 2e-3, "the origin follows the centre");
}
VF_R(position) {
  const float s = scale();
  OccupancyMapParams p = params(s);
  const int i = vf_int("i", -4000, 4000), j = vf_int("j", -4000, 4000);
  const float t = vf_real("theta", -7, 7);
  const Position2D q = p.getPositionFromPixel(Point2Di(i, j));
  vf_close(q.x, (double)i * s + p.originOffset.x, 3e-3, "abscissa of a pixel"); vf_close(q.y, p.originOffset.y - (double)j * s, 3e-3, "ordinate of a pixel, reversed");
  const Pose2D r = p.getPoseFromPixel(Pose2Di(i, j, t));
  vf_close(r.x, (double)i * s + p.originOffset.x, 3e-3, "abscissa of a pixel"); vf_close(r.y, p.originOffset.y - (double)j * s, 3e-3, "ordinate of a pixel, reversed");
  vf_same(r.theta, t, "the orientation is kept");
}
// pixel -> position -> pixel
VF_R(roundTrip) {
  const float s = scale();
  OccupancyMapParams p = params(s);
  const int i = vf_int("i", -4000, 4000), j = vf_int("j", -4000, 4000);
  Point2Di b;
  if (vf_choice("pose", 2)) b = p.getPixelFromPose(p.getPoseFromPixel(Pose2Di(Point2Di(i, j), vf_real("theta", -7, 7))));
  else b = p.getPixelFromPosition(p.getPositionFromPixel(Point2Di(i, j)));
  vf_assert(b.x == i, "a pixel is recovered from its position (x)");
  vf_assert(b.y == j, "a pixel is recovered from its position (y)");
}
// the pixel of a position is the nearest one
VF_R(nearest) {
  const float s = scale();
  OccupancyMapParams p = params(s);
  const float x = vf_real("x", -100, 100), y = vf_real("y", -100, 100);
  const Point2Di b = vf_choice("pose", 2) ? p.getPixelFromPose(Pose2D(x, y, vf_real("theta", -7, 7))) : p.getPixelFromPosition(Position2D(x, y));
  vf_close(b.x, (x - (double)p.originOffset.x) / s, 0.5 + 0.1, "nearest pixel");
  vf_close(b.y, ((double)p.originOffset.y - y) / s, 0.5 + 0.1, "nearest pixel, reversed");
}
// differences do not depend on the origin of the map
VF_R(delta) {
  const float s = scale();
  OccupancyMapParams p = params(s);
  const float x = vf_real("x", -100, 100), y = vf_real("y", -100, 100);
  const Point2Di b = p.getDeltaPixelFromDeltaPosition(Position2D(x, y));
  vf_close(b.x, (double)x / s, 0.5 + 1e-2, "difference in pixels");
  vf_close(b.y, -(double)y / s, 0.5 + 1e-2, "difference in pixels, reversed");
  const int i = vf_int("i", -4000, 4000), j = vf_int("j", -4000, 4000);
  const Point2Di c = p.getDeltaPixelFromDeltaPosition(Position2D(i * s, j * s));
  vf_assert(c.x == i && c.y == -j, "a whole number of pixels");
}
VF_B(round) {
  const float x = vf_real("x", -1e5, 1e5);
  const int r = roundToInt(x);
  const double d = (double)r - x;
  vf_assert(d <= 0.504 && d >= -0.504, "nearest integer, up to the rounding of the addition");
}
VF_B(ties) {
  const int k = vf_int("k", 0, 100000);
  vf_assert(roundToInt(k + 0.5f) == k + 1, "ties are rounded away from zero");
  vf_assert(roundToInt(-(k + 0.5f)) == -(k + 1), "ties are rounded away from zero");
  vf_assert(roundToInt((float)k) == k && roundToInt(-(float)k) == -k, "integers are kept");
}
VF_B(equality) {
  const int a = vf_int("a", -100000, 100000), b = vf_int("b", -100000, 100000), c = vf_int("c", -100000, 100000), d = vf_int("d", -100000, 100000);
  vf_assert((Point2Di(a, b) == Point2Di(c, d)) == ((a == c) & (b == d)), "equal pixels");
  const float t = vf_real("t", -7, 7);
  vf_assert((Pose2Di(a, b, t) == Pose2Di(c, d, t)) == ((a == c) & (b == d)), "equal pixel poses");
  const float u = vf_real("u", -7, 7);
  const double e = (double)t - u;
  vf_assume(e > 2e-6 || e < -2e-6);
  vf_assert(!(Pose2Di(a, b, t) == Pose2Di(a, b, u)), "pixel poses of different orientations differ");
}
