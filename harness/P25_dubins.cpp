// SRC: @core src/tools/aldubinscurve.cpp
// BOUND: radius 0.1 (and 0.2 for the outer tangents), targets with coordinates within 1 m, at least 4.002 radii away, orientations 0, 0.3, 1.57, 2.5, -3 (thorough: also -1.2, 0.785, -2), where the shortest straight part is the shortest by 0.02 m2 of squared length and, for inner tangents, of 0.2 m at least; refused targets: radius 0.05 to 3, distance up to 3.99 radii
#include "types.h"
#include <almath/tools/aldubinscurve.h>
static const double TH[] = {0, 0.3, 1.5707963267948966, 2.5, -3.0, -1.2, 0.7853981633974483, -2.0};
#ifdef VF_THOROUGH
enum { NTH = 8 };
#else
enum { NTH = 5 };
#endif
// kind: 0 LSL, 1 LSR, 2 RSL, 3 RSR
static void run(int kind, float r) {
  const double th = TH[vf_choice("theta", NTH)];
  const double R = r, s = std::sin((double)(float)th), c = std::cos((double)(float)th);
  const bool l0 = kind < 2, l1 = !(kind & 1);
  const float x = vf_real("x", -1, 1), y = vf_real("y", -1, 1);   // target
  // vectors between the centres, lengths of the straight parts
  double X[4], Y[4], n[4];
  for (int i = 0; i < 4; ++i) {
    X[i] = x + (i & 1 ? s : -s) * R;
    Y[i] = y + (i & 1 ? -c : c) * R - (i < 2 ? R : -R);
    n[i] = X[i] * X[i] + Y[i] * Y[i] - (i == 1 || i == 2 ? 4 * R * R : 0);
  }
  vf_assume((double)x * x + (double)y * y >= 16.01 * R * R);
  for (int i = 0; i < 4; ++i) if (i != kind) vf_assume(n[i] >= n[kind] + 0.02);
  if (l0 != l1) { vf_assume(n[kind] >= 0.04); }
  vf_bound((double)x * x + (double)y * y, 16.01 * R * R, 2);
  for (int i = 0; i < 4; ++i) vf_bound(X[i] * X[i] + Y[i] * Y[i], 4 * R * R, 2.8);
  const double dx = X[kind], dy = Y[kind];
  if (l0 != l1) vf_bound(dx * dx + dy * dy, 0.08, 2.8);
  const double D = std::sqrt(dx * dx + dy * dy), C = 2 * R / D;
  if (l0 != l1) vf_bound(1 - C * C, 0.5, 1);
  const std::vector<Pose2D> v = getDubinsSolutions(Pose2D(x, y, th), r);
  vf_assert(v.size() == 3, "three control points");
  const double k0 = l0 ? 1 : -1, k1 = l1 ? 1 : -1;
  double w[2] = {dx / D, dy / D};
  if (l0 != l1) {
    const double S = std::sqrt(1 - C * C), a = w[0], b = w[1];
    w[0] = S * a - k0 * C * b; w[1] = S * b + k0 * C * a;
  }
  vf_close(v[0].x, k0 * R * w[1], 1e-4, "end of the first turn"); vf_close(v[0].y, k0 * (R - R * w[0]), 1e-4, "end of the first turn");
  vf_close(v[1].x, x - k1 * R * s + k1 * R * w[1], 1e-4, "start of the last turn"); vf_close(v[1].y, y + k1 * R * c - k1 * R * w[0], 1e-4, "start of the last turn");
  vf_close(v[2].x, x, 1e-5, "target"); vf_close(v[2].y, y, 1e-5, "target"); vf_close(v[2].theta, th, 1e-5, "target");
  const double sx = (double)v[1].x - v[0].x, sy = (double)v[1].y - v[0].y;
  for (int i = 0; i < 2; ++i) {
    const double ct = std::cos((double)v[i].theta), st = std::sin((double)v[i].theta);
    vf_close(ct * sy - st * sx, 0, 6e-3, "the orientation is along the straight part");
    vf_assert(ct * sx + st * sy > 0.05, "the orientation is along the straight part");
  }
}
VF_R(lsl) { run(0, vf_choice("radius", 2) ? 0.2f : 0.1f); }
VF_R(rsr) { run(3, vf_choice("radius", 2) ? 0.2f : 0.1f); }
VF_R(lsr) { run(1, 0.1f); }
VF_R(rsl) { run(2, 0.1f); }
// targets nearer than four times the radius are refused
VF_R(near) {
  const double SC[] = {0.05, 0.3, 2}, sc = SC[vf_choice("scale", 3)];
  const float r = vf_real("r", sc, 1.5 * sc), k = vf_real("k", 0, 3.99);
  float u[2];
  vf_unitn("u", 2, u);
  const double d = (double)k * r;
  vf_root(d);
  bool thrown = false;
  try { getDubinsSolutions(Pose2D(d * u[0], d * u[1], vf_real("theta", -4, 4)), r); } catch (const std::invalid_argument &) { thrown = true; }
  vf_assert(thrown, "a target nearer than four times the radius is refused");
}
