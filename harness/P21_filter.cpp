// SRC: src/dsp/digitalfilter.cpp
// BOUND: 1 to 3 input coefficients, 0 to 3 output coefficients, histories of 6 samples, a reset after any of them; samples in [-10,10], coefficients in [-1,1], gains in [0.5,2] or their opposites
#include "vf.h"
#include <almath/dsp/digitalfilter.h>
using AL::Math::DSP::DigitalFilter;
struct Ref {
  std::vector<float> wi, wo;
  double g;
  std::vector<double> in, out;
  double step(double x) {
    in.push_back(x / g);
    double y = x;
    if (in.size() >= wi.size() && out.size() >= wo.size()) {
      y = 0;
      for (size_t i = 0; i < wi.size(); ++i) y += in[in.size() - wi.size() + i] * wi[i];
      for (size_t i = 0; i < wo.size(); ++i) y += out[out.size() - wo.size() + i] * wo[i];
    }
    out.push_back(y);
    return y;
  }
};
static void coefs(Ref &r) {
  const int ni = 1 + vf_choice("inputs", 3), no = vf_choice("outputs", 4);
  for (int i = 0; i < ni; ++i) r.wi.push_back(vf_real("wi", -1, 1));
  for (int i = 0; i < no; ++i) r.wo.push_back(vf_real("wo", -1, 1));
  const float g = vf_real("gain", 0.5, 2);
  r.g = vf_choice("sign", 2) ? -g : g;
}
static double sample() { return vf_real("x", -10, 10); }
VF_R(history) {
  Ref r;
  coefs(r);
  DigitalFilter f;
  f.configureFilter(r.wi, r.wo, r.g);
  for (int i = 0; i < 6; ++i) {
    const float x = sample();
    vf_close(f.processFilter(x), r.step(x), 5e-3, "output sample");
  }
}
VF_R(reset) {
  Ref r;
  coefs(r);
  DigitalFilter f;
  f.configureFilter(r.wi, r.wo, r.g);
  const int n = vf_choice("before", 5);
  for (int i = 0; i < n; ++i) f.processFilter(sample());
  f.resetFilter();
  for (int i = 0; i < 5; ++i) {
    const float x = sample();
    vf_close(f.processFilter(x), r.step(x), 5e-3, "output sample after a reset");
  }
}
// two filters do not share their histories; a copy continues on its own
VF_R(copy) {
  Ref r;
  coefs(r);
  DigitalFilter f;
  f.configureFilter(r.wi, r.wo, r.g);
  for (int i = 0; i < 2; ++i) { const float x = sample(); f.processFilter(x); r.step(x); }
  DigitalFilter h(f);
  for (int i = 0; i < 2; ++i) h.processFilter(sample());
  for (int i = 0; i < 2; ++i) { const float x = sample(); vf_close(f.processFilter(x), r.step(x), 5e-3, "the original is not affected by its copy"); }
}
// without coefficients the filter is the identity
VF_R(unconfigured) {
  DigitalFilter f;
  for (int i = 0; i < 3; ++i) { const float x = sample(); vf_close(f.processFilter(x), x, 1e-6, "a filter that is not configured returns its input"); }
}
