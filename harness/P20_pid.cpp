// SRC: src/dsp/pidcontroller.cpp
// BOUND: every history of up to 3 updates (4 in the thorough tier) of every kind with errors in any position relative to the dead band (at least 1e-3 from its edges), then a reset, a re-initialisation or a gain change and 2 more updates; gains and thresholds in [0,2], offsets in [0,1], periods in [0.5,2], measures in [-10,10]; refusals: every float bit pattern
#include "vf.h"
#include <almath/dsp/pidcontroller.h>
#include <stdexcept>
using AL::Math::DSP::PIDController;
static const double TOL = 2e-3;
struct Ref {      // the documented controller
  double kp, kv, ki, thr, off, per, err, sum;
  bool first;
  void reset() { err = 0; sum = 0; first = true; }
  double step(double e, double period, bool absolute) {
    double d = (e - err) / period;
    if (absolute && d < 0) d = -d;
    if (first) d = 0;
    first = false;
    err = e;
    sum += e * period;
    return off + kp * e + kv * d + ki * sum;
  }
};
static void par(Ref &r) {
  r.kp = vf_real("kp", 0, 2); r.kv = vf_real("kv", 0, 2); r.ki = vf_real("ki", 0, 2);
  r.thr = vf_real("threshold", 0, 2); r.off = vf_real("offset", 0, 1); r.per = vf_real("period", 0.5, 2);
  r.reset();
}
static void update(PIDController &c, Ref &r, int kinds) {
  const int kind = vf_choice("kind", kinds);          // signed, absolute, signed with its own period
  const int reg = vf_choice("regime", kind == 1 ? 2 : 3);   // above, inside, below the dead band
  if (kind == 1) {
    const float e = vf_real("error", -10, 10);
    if (reg == 0) vf_assume(e >= r.thr + 1e-3); else vf_assume(e <= r.thr - 1e-3);
    vf_close(c.computeFeedbackAbsolute(e), r.step(reg == 0 ? e - r.thr : 0, r.per, true), TOL, "output of the absolute update");
    return;
  }
  const float a = vf_real("command", -5, 5), b = vf_real("sensor", -5, 5);
  const double e = (double)a - b;
  if (reg == 0) vf_assume(e >= r.thr + 1e-3); else if (reg == 1) { vf_assume(e <= r.thr - 1e-3); vf_assume(e >= 1e-3 - r.thr); } else vf_assume(e <= -r.thr - 1e-3);
  const double d = reg == 0 ? e - r.thr : reg == 1 ? 0 : e + r.thr;
  if (kind == 0) vf_close(c.computeFeedback(a, b), r.step(d, r.per, false), TOL, "output of the update");
  else {
    const float p = vf_real("own period", 0.5, 2);
    vf_close(c.computeFeedback(a, b, p), r.step(d, p, false), TOL, "output of the update with its own period");
  }
}
VF_R(history) {
  Ref r;
  par(r);
  PIDController c(r.kp, r.kv, r.ki, r.thr, r.off, r.per);
#ifdef VF_THOROUGH
  for (int i = 0; i < 4; ++i)
#else
  for (int i = 0; i < 3; ++i)
#endif
    update(c, r, 3);
}
VF_R(change) {
  Ref r;
  par(r);
  PIDController c(r.kp, r.kv, r.ki, r.thr, r.off, r.per);
  update(c, r, 2);
  const int what = vf_choice("what", 3);
  if (what == 0) { c.initialize(); r.reset(); }
  else if (what == 1) { par(r); c.initialize(r.kp, r.kv, r.ki, r.thr, r.off, r.per); }
  else { r.kp = vf_real("kp", 0, 2); r.kv = vf_real("kv", 0, 2); r.ki = vf_real("ki", 0, 2); c.setGains(r.kp, r.kv, r.ki); }
  update(c, r, 2);
  update(c, r, 2);
}
// a controller built without parameters has null gains and a period of one
VF_R(defaults) {
  PIDController c;
  const float a = vf_real("command", -5, 5), b = vf_real("sensor", -5, 5);
  vf_close(c.computeFeedback(a, b), 0, 1e-6, "no gain");
  const float kp = vf_real("kp", 0, 2), kv = vf_real("kv", 0, 2), ki = vf_real("ki", 0, 2);
  c.setGains(kp, kv, ki);
  const float d = vf_real("command", -5, 5), e = vf_real("sensor", -5, 5);
  const double e1 = (double)a - b, e2 = (double)d - e;
  vf_close(c.computeFeedback(d, e), kp * e2 + kv * (e2 - e1) + ki * (e1 + e2), TOL, "period of one");
}
VF_B(refusal) {
  float v[6];
  bool bad = false;
  for (int i = 0; i < 6; ++i) v[i] = vf_float("v");
  bool neg = v[5] <= 0;
  for (int i = 0; i < 5; ++i) neg = neg | (v[i] < 0);
  const int form = vf_choice("form", 3);
  if (form == 2) neg = (v[0] < 0) | (v[1] < 0) | (v[2] < 0);
  try {
    PIDController d;
    if (form == 0) PIDController c(v[0], v[1], v[2], v[3], v[4], v[5]);
    else if (form == 1) d.initialize(v[0], v[1], v[2], v[3], v[4], v[5]);
    else d.setGains(v[0], v[1], v[2]);
  } catch (const std::runtime_error &) { bad = true; }
  vf_assert(bad == neg, "negative parameters and a period that is not positive are refused, others are accepted");
}
// refused gains leave the controller as it was
VF_R(refusedGains) {
  Ref r;
  par(r);
  PIDController c(r.kp, r.kv, r.ki, r.thr, r.off, r.per);
  update(c, r, 1);
  bool thrown = false;
  const int k = vf_choice("which", 3);
  float g[3];
  for (int i = 0; i < 3; ++i) g[i] = vf_real("g", 0, 2);
  g[k] = vf_real("negative", -2, -1e-3);
  try { c.setGains(g[0], g[1], g[2]); } catch (const std::runtime_error &) { thrown = true; }
  vf_assert(thrown, "negative gains are refused");
  update(c, r, 1);
}
