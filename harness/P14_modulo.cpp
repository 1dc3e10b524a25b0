// SRC: @core
// BOUND: interval: every finite float (fmod by its contract for angles beyond one turn); equivalence: angles in [-300,300] rad
#include "types.h"
#include <almath/tools/almath.h>
#include <almath/tools/altrigonometry.h>
static float mod(float a) {
  if (vf_choice("form", 2)) return modulo2PI(a);
  float r = a;
  modulo2PIInPlace(r);
  return r;
}
VF_B(intervalNear) {
  const float a = vf_float("a");
  vf_assume(a > -_2_PI_ && a < _2_PI_);
  const float r = mod(a);
  vf_assert(r > -PI && r <= PI, "the result lies in ]-pi, pi]");
}
VF_B(intervalFar) {
  const float a = vf_float("a");
  vf_assume(a - a == 0 && !(a > -_2_PI_ && a < _2_PI_));
  const float r = mod(a);
  vf_assert(r > -PI && r <= PI, "the result lies in ]-pi, pi]");
}
VF_B(idempotent) {
  const float a = vf_float("a");
  vf_assume(a > -PI && a <= PI);
  vf_same(mod(a), a, "an angle already in ]-pi, pi] is unchanged");
}
VF_B(nonfinite) {
  const float a = vf_float("a");
  vf_assume(a - a != 0);
  const float r = mod(a);
  vf_assert(r != r, "an angle that is not finite gives NaN");
}
// the same direction as the input
VF_R(equivalent) {
  const float a = vf_real("a", -300, 300), r = mod(a);
  const double two_pi = _2_PI_;
  const double turns = ((double)a - r) / two_pi;
  const double k = std::floor(turns + 0.5);
  vf_close(turns, k, 1e-5, "the result differs from the input by whole turns");
  vf_assert(r >= -PI - 1e-6 && r <= PI + 1e-6, "the result lies between -pi and pi");
}
VF_R(oneTurn) {
  const float a = vf_real("a", 3.1416, 9.42), r = mod(a), s = mod(-a);
  vf_close(r, a - 6.283185307179586, 2e-6, "one turn is taken off");
  vf_close(s, 6.283185307179586 - a, 2e-6, "one turn is added");
}
