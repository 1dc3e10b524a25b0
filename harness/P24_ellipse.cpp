// SRC: @core src/tools/avoidfootcollision.cpp
// BOUND: limits around 1 cm, 8 cm and 1 m of either sign, the lateral one 1/4 to 4 times the frontal one, moves of any direction of 1/8 to 16 times the frontal limit, at least 0.2 % inside or outside of the ellipse
#include "types.h"
#include <almath/tools/avoidfootcollision.h>
struct Case { float a, b, u[2], r, x, y, t; double sc, al, bl; };
static Case make() {
  static const double SC[] = {0.01, 0.08, 1}, RA[] = {0.25, 0.5, 1, 2, 3}, LE[] = {0.125, 0.25, 0.5, 1, 2, 4, 8};
  Case m;
  m.sc = SC[vf_choice("scale", 3)];
  m.al = m.sc;
  m.a = vf_real("a", m.al, 1.25 * m.sc);
  m.bl = m.sc * RA[vf_choice("ratio", 5)];
  m.b = vf_real("b", m.bl, 1.25 * m.bl);
  const int s = vf_choice("signs", 3);
  if (s == 1) m.a = -m.a;
  if (s == 2) m.b = -m.b;
  vf_unitn("u", 2, m.u);
  const double l = m.sc * LE[vf_choice("length", 7)];
  m.r = vf_real("r", l, 2 * l);
  m.t = vf_real("theta", -7, 7);
  m.x = m.r * m.u[0]; m.y = m.r * m.u[1];
  vf_root(m.r);
  return m;
}
static double level(const Case &m) {
  const double x = (double)m.r * m.u[0], y = (double)m.r * m.u[1], a = m.a, b = m.b;
  return x * x / (a * a) + y * y / (b * b);
}
VF_R(inside) {
  const Case m = make();
  vf_assume(level(m) <= 0.998);
  Pose2D p(m.x, m.y, m.t);
  vf_assert(!clipFootWithEllipse(m.a, m.b, p), "a move inside the ellipse is not clipped");
  vf_same(p.x, m.x, "a move inside the ellipse is kept"); vf_same(p.y, m.y, "a move inside the ellipse is kept"); vf_same(p.theta, m.t, "the rotation is kept");
}
VF_R(outside) {
  const Case m = make();
  vf_assume(level(m) >= 1.002);
  const double c = (double)m.u[0] * m.u[0] * m.b * m.b + (double)m.u[1] * m.u[1] * m.a * m.a, ab = (double)m.a * m.b;
  const double lo = m.bl < m.al ? m.bl : m.al, hi = m.bl < m.al ? m.al : m.bl;
  vf_bound(c, 0.99 * lo * lo, 1.6 * hi * hi);
  Pose2D p(m.x, m.y, m.t);
  vf_assert(clipFootWithEllipse(m.a, m.b, p), "a move outside the ellipse is clipped");
  const double k = std::fabs(ab) / std::sqrt(c);
  vf_close(p.x / m.sc, k * m.u[0] / m.sc, 5e-4, "the clipped move is on the ellipse, in the same direction");
  vf_close(p.y / m.sc, k * m.u[1] / m.sc, 5e-4, "the clipped move is on the ellipse, in the same direction");
  vf_same(p.theta, m.t, "the rotation is kept");
}
