// SRC: @core src/tools/avoidfootcollision.cpp
// BOUND: segments: end points within 2 m, crossing at parameters at least 0.01 inside or outside of both segments, or parallel; boxes: four pairs of rectangles turned by 4 angles (8 in the thorough tier), at any relative position of at most 0.4 m not within 1 mm of touching, no corner within 0.1 mm of a line that carries a side of the other box; reducing the rotation: the moving box is a point 0.14 m away from the centre of rotation, the fixed one a triangle or a square, any translation of at most 0.4 m, requested rotations 0.8, -0.8, 0.3, -1.5
// LIMIT: paths=40000
#include "types.h"
#include <almath/tools/avoidfootcollision.h>
#ifdef VF_THOROUGH
enum { NANGLE = 4 };
#else
enum { NANGLE = 2 };
#endif
typedef std::vector<Position2D> Box;
// crossing at parameters s of A and t of B
VF_R(segments) {
  const float ax = vf_real("ax", -1, 1), ay = vf_real("ay", -1, 1), bx = vf_real("bx", -1, 1), by = vf_real("by", -1, 1);   // directions
  const int steep = vf_choice("steep", 2);
  const double den = (double)bx * ay - (double)ax * by;
  if (vf_choice("turn", 2)) { vf_assume(den >= 0.05); vf_bound(den, 0.0499, 2.001); } else { vf_assume(den <= -0.05); vf_bound(-den, 0.0499, 2.001); }
  if (steep) { vf_assume(ax <= 5e-6); vf_assume(ax >= -5e-6); if (vf_choice("up", 2)) { vf_assume(ay >= 0.0499); vf_bound(ay, 0.0498, 1); } else { vf_assume(ay <= -0.0499); vf_bound(-ay, 0.0498, 1); } }
  else if (vf_choice("right", 2)) { vf_assume(ax >= 0.05); vf_bound(ax, 0.0499, 1); } else { vf_assume(ax <= -0.05); vf_bound(-ax, 0.0499, 1); }
  const int cs = vf_choice("where on A", 3), ct = vf_choice("where on B", 3);
  const float s = cs == 0 ? vf_real("s", 0.01, 0.99) : cs == 1 ? vf_real("s", 1.01, 2) : vf_real("s", -1, -0.01);
  const float t = ct == 0 ? vf_real("t", 0.01, 0.99) : ct == 1 ? vf_real("t", 1.01, 2) : vf_real("t", -1, -0.01);
  const float x = vf_real("x", -1, 1), y = vf_real("y", -1, 1);   // the crossing point
  const Position2D a1(x - s * ax, y - s * ay), a2(x + (1 - s) * ax, y + (1 - s) * ay), b1(x - t * bx, y - t * by), b2(x + (1 - t) * bx, y + (1 - t) * by);
  Position2D c(7, 8);
  const bool r = intersectionSegment2D(a1, a2, b1, b2, c);
  if (cs == 0 && ct == 0) {
    vf_assert(r, "segments that cross intersect");
    vf_close(c.x, x, 1e-2, "crossing point"); vf_close(c.y, y, 1e-2, "crossing point");
  } else vf_assert(!r, "segments that do not cross do not intersect");
}
// parallel segments have no single common point
VF_R(parallel) {
  const float ax = vf_real("ax", -1, 1), ay = vf_real("ay", -1, 1), x = vf_real("x", -2, 2), y = vf_real("y", -2, 2), u = vf_real("u", -2, 2), v = vf_real("v", -2, 2);
  const double K[] = {1, -1, 0.5, -2, 0};
  const double k = K[vf_choice("k", 5)];
  Position2D c(7, 8);
  vf_assert(!intersectionSegment2D(Position2D(x, y), Position2D(x + ax, y + ay), Position2D(u, v), Position2D(u + k * ax, v + k * ay), c), "parallel or null segments do not intersect in a single point");
}
// rectangles [x0,x1]x[y0,y1], corners in clockwise order
struct Rect { double x0, x1, y0, y1; };
static const Rect LF = {-0.047, 0.11, -0.038, 0.05}, RF = {-0.047, 0.11, -0.05, 0.038}, SMALL = {-0.02, 0.02, -0.01, 0.01}, WIDE = {-0.2, 0.2, -0.01, 0.01}, TALL = {-0.015, 0.01, -0.15, 0.2};
static const Rect PAIR[][2] = {{LF, RF}, {LF, SMALL}, {SMALL, RF}, {WIDE, TALL}};
static void corners(const Rect &r, double *x, double *y) {
  const double cx[] = {r.x1, r.x1, r.x0, r.x0}, cy[] = {r.y1, r.y0, r.y0, r.y1};
  for (int i = 0; i < 4; ++i) { x[i] = cx[i]; y[i] = cy[i]; }
}
static Box box(const Rect &r) {
  double x[4], y[4];
  corners(r, x, y);
  Box b;
  for (int i = 0; i < 4; ++i) b.push_back(Position2D(x[i], y[i]));
  return b;
}
static const double M = 1e-3;
// the second rectangle turned by t and moved by (dx,dy): gaps along the four directions of the sides
static void gaps(const Rect &a, const Rect &b, double t, double dx, double dy, double (*g)[2]) {
  const double c = std::cos(t), s = std::sin(t);
  const double ux[] = {1, 0, c, -s}, uy[] = {0, 1, s, c};
  double ax[4], ay[4], bx[4], by[4];
  corners(a, ax, ay);
  corners(b, bx, by);
  for (int k = 0; k < 4; ++k) {
    double al = 1e9, ah = -1e9, bl = 1e9, bh = -1e9;
    for (int i = 0; i < 4; ++i) {
      const double p = ux[k] * ax[i] + uy[k] * ay[i], q = ux[k] * (c * bx[i] - s * by[i]) + uy[k] * (s * bx[i] + c * by[i]);
      al = p < al ? p : al; ah = p > ah ? p : ah;
      bl = q < bl ? q : bl; bh = q > bh ? q : bh;
    }
    const double d = ux[k] * dx + uy[k] * dy;
    g[k][0] = d + bl - ah;
    g[k][1] = al - bh - d;
  }
}
static void away(double d) { vf_assume((d >= 1e-4) | (d <= -1e-4)); }
static void boxes(int pair, int group) {
  const double T[2][4] = {{0, 0.3, 1.5707963267948966, 2.5}, {0.7853981633974483, -3.0, 1.2, -0.5}};
  const Rect &a = PAIR[pair][0], &b = PAIR[pair][1];
  const int ti = vf_choice("angle", NANGLE);
  const double t = T[group][ti], c = std::cos(t), s = std::sin(t);
  const float dx = vf_real("dx", -0.4, 0.4), dy = vf_real("dy", -0.4, 0.4);
  double g[4][2];
  gaps(a, b, t, dx, dy, g);
  // no corner within 0.1 mm of a line that carries a side of the other box
  double ax[4], ay[4], bx[4], by[4];
  corners(a, ax, ay);
  corners(b, bx, by);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) {
    const double p = c * bx[j] - s * by[j] + dx - ax[2 * i], q = s * bx[j] + c * by[j] + dy - ay[i];
    away(p); away(q);
    const double u = c * (ax[j] - dx) + s * (ay[j] - dy) - bx[2 * i], v = -s * (ax[j] - dx) + c * (ay[j] - dy) - by[i];
    away(u); away(v);
  }
  const int k = vf_choice("separated along", t == 0 ? 5 : 9);
  if (k == 0) for (int i = 0; i < 4; ++i) { vf_assume(g[i][0] <= -M); vf_assume(g[i][1] <= -M); }
  else vf_assume(g[(k - 1) / 2][(k - 1) % 2] >= M);
  Box B;
  for (int i = 0; i < 4; ++i) B.push_back(Position2D(dx + (float)(c * bx[i] - s * by[i]), dy + (float)(s * bx[i] + c * by[i])));
  const bool r = areTwoBoxesInCollision(box(a), B);
  if (k == 0) vf_assert(r, "boxes that overlap are in collision");
  else vf_assert(!r, "boxes that are apart are not in collision");
}
VF_R(boxesFeet) { boxes(0, 0); }
VF_R(boxesFeet2) { boxes(0, 1); }
VF_R(boxesInside) { boxes(1, 0); }
VF_R(boxesInside2) { boxes(1, 1); }
VF_R(boxesAround) { boxes(2, 0); }
VF_R(boxesAround2) { boxes(2, 1); }
VF_R(boxesCross) { boxes(3, 0); }
VF_R(boxesCross2) { boxes(3, 1); }
VF_R(moved) {
  const Pose2D m(vf_real("x", -10, 10), vf_real("y", -10, 10), vf_angle("t", -7, 7, 1));
  Box b, o(1, Position2D(7, 8));
  const int n = vf_choice("corners", 5);
  for (int i = 0; i < n; ++i) { const float x = vf_real("bx", -1, 1); const float y = vf_real("by", -1, 1); b.push_back(Position2D(x, y)); }
  computeBox(b, m, o);
  vf_assert((int)o.size() == n, "as many corners");
  const double c = std::cos((double)m.theta), s = std::sin((double)m.theta);
  for (int i = 0; i < n; ++i) {
    vf_close(o[i].x, m.x + c * b[i].x - s * b[i].y, 1e-5, "corner of a moved box");
    vf_close(o[i].y, m.y + s * b[i].x + c * b[i].y, 1e-5, "corner of a moved box");
  }
}
// avoidFootCollision: the moving box is one point on an arm, the fixed one a triangle or a rectangle
static bool inside(const Box &f, double px, double py, double margin) {
  bool in = true;
  for (size_t i = 0; i < f.size(); ++i) {
    const Position2D &p = f[i], &q = f[(i + 1) % f.size()];
    in = in & (((double)q.x - p.x) * (py - p.y) - ((double)q.y - p.y) * (px - p.x) < -margin);
  }
  return in;
}
static void avoid(double t, bool left, int shape) {
  const double FX[] = {0.1, 0, -0.1, 0}, FY[] = {0, -0.1, 0, 0.1};
  Box f;
  if (shape) for (int i = 0; i < 4; ++i) f.push_back(Position2D(FX[i], FY[i]));
  else { f.push_back(Position2D(0.1f, 0.02f)); f.push_back(Position2D(0.1f, -0.2f)); f.push_back(Position2D(-0.3f, -0.1f)); }
  const Box p(1, Position2D(0.125f, 0.0625f));
  const float x = vf_real("x", -0.4, 0.4), y = vf_real("y", -0.4, 0.4);
  const Pose2D req(x, y, t);
  double px[33], py[33];
  for (int k = 0; k <= 32; ++k) {
    const float a = req.theta * (float)k / 32;
    const double c = std::cos(a), s = std::sin(a);
    px[k] = x + c * 0.125 - s * 0.0625; py[k] = y + s * 0.125 + c * 0.0625;
  }
  Pose2D m = req;
  const bool got = left ? avoidFootCollision(f, p, true, m) : avoidFootCollision(p, f, false, m);
  vf_assert(got ? inside(f, px[32], py[32], -1e-6) : !inside(f, px[32], py[32], 1e-6), "a collision at the requested move is reported");
  vf_same(m.x, x, "the translation is kept"); vf_same(m.y, y, "the translation is kept");
  if (!got) { vf_same(m.theta, t, "a move without collision is kept"); return; }
  for (int k = 0; k < 32; ++k) if (std::abs(m.theta - req.theta * (float)k / 32) < 1e-5f) {
    if (k) vf_assert(!inside(f, px[k], py[k], 1e-6), "the rotation left is null or free of collision");
    vf_assert(inside(f, px[k + 1], py[k + 1], -1e-6), "one step further there is a collision");
    return;
  }
  vf_assert(false, "the rotation is reduced to a multiple of a 32nd of the requested one");
}
static const double TURN[] = {0.8, -0.8, 0.3, -1.5};
VF_R(avoidLeft) { const int i = vf_choice("turn", 4); avoid(TURN[i], true, vf_choice("shape", 2)); }
VF_R(avoidRight) { const int i = vf_choice("turn", 4); avoid(TURN[i], false, vf_choice("shape", 2)); }
