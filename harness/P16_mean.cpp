// SRC: @core
// BOUND: lists of one to three angles in [-7,7] rad, weights in [0.1,4]; vector sum of norm at least 0.3, or exactly opposite
#include "types.h"
#include <almath/tools/almath.h>
#include <almath/tools/altrigonometry.h>
template <class F> static bool throws(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
// r is the direction of (sx, sy)
static void direction(float r, double sx, double sy, double tol, const char *w) {
  const double c = std::cos((double)r), s = std::sin((double)r);
  vf_close(c * sy - s * sx, 0, tol, w);
  vf_assert((c * sx + s * sy) * std::sqrt(sx * sx + sy * sy) > 0.05, w);
  vf_assert(r >= -PI - 2e-3 && r <= PI + 2e-3, "the mean lies between -pi and pi");
}
VF_R(one) {
  const float a = vf_angle("a", -7, 7, 1), w = vf_real("w", 0.1, 4);
  direction(meanAngle(std::vector<float>(1, a)), std::cos((double)a), std::sin((double)a), 1e-4, "the mean of one angle is that direction");
  direction(weightedMeanAngle(std::vector<float>(1, a), std::vector<float>(1, w)), std::cos((double)a), std::sin((double)a), 1e-3, "the weighted mean of one angle is that direction");
}
template <int n> static void mean(bool weighted) {
  std::vector<float> a, w;
  double sx = 0, sy = 0;
  for (int i = 0; i < n; ++i) {
    a.push_back(vf_angle("a", -7, 7, 1));
    w.push_back(weighted ? vf_real("w", 0.1, 4) : 1.f);
    sx += w[i] * std::cos((double)a[i]);
    sy += w[i] * std::sin((double)a[i]);
  }
  vf_assume(sx * sx + sy * sy >= 0.09);
  vf_bound(sx * sx + sy * sy, 0.089, 1e4);
  direction(weighted ? weightedMeanAngle(a, w) : meanAngle(a), sx, sy, 3e-3, weighted ? "the weighted mean is the direction of the weighted sum" : "the mean is the direction of the sum");
}
VF_R(two) { mean<2>(false); }
VF_R(three) { mean<3>(false); }
VF_R(weighted2) { mean<2>(true); }
VF_R(weighted3) { mean<3>(true); }
// opposite directions have no mean
VF_R(undefined) {
  const float a = vf_angle("a", -3, 3, 1), w = vf_real("w", 0.1, 4);
  std::vector<float> v, ws(2, w);
  v.push_back(a);
  v.push_back(a + PI);
  vf_assert(throws([&] { meanAngle(v); }), "opposite angles have no mean");
  vf_assert(throws([&] { weightedMeanAngle(v, ws); }), "opposite angles of the same weight have no mean");
}
VF_B(refused) {
  std::vector<float> a(vf_choice("angles", 3), 0.5f), w(vf_choice("weights", 3), 1.f);
  const int bad = vf_choice("bad", 3);
  if (a.size() == w.size()) {
    if (a.empty()) vf_assert(throws([&] { meanAngle(a); }) && throws([&] { weightedMeanAngle(a, w); }), "no angle has no mean");
    else if (bad < (int)w.size()) {
      w[bad] = vf_float("w");
      vf_assume(w[bad] <= 0);
      vf_assert(throws([&] { weightedMeanAngle(a, w); }), "a weight that is not positive is refused");
    } else vf_assert(!throws([&] { weightedMeanAngle(a, w); }), "equal angles of positive weights have a mean");
  } else vf_assert(throws([&] { weightedMeanAngle(a, w); }), "as many weights as angles are required");
}
