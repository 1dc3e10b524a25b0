// SRC: @core
// BOUND: every float bit pattern but NaN with min <= max; lists of up to four values, lists of up to two lists of up to two values
#include "types.h"
#include <almath/tools/almath.h>
struct I { float lo, hi; };
static float num(const char *n) { const float a = vf_float(n); vf_assume(a == a); return a; }
static I interval() {
  I i;
  i.lo = num("lo");
  i.hi = num("hi");
  vf_assume(i.lo <= i.hi);
  return i;
}
static float want(const I &i, float v) { return v < i.lo ? i.lo : v > i.hi ? i.hi : v; }
static bool out(const I &i, float v) { return v < i.lo || v > i.hi; }
VF_B(scalar) {
  vf_lazy(1);
  const I i = interval();
  const float v = num("v");
  float r = v;
  const bool c = clipData(i.lo, i.hi, r);
  vf_assert(r >= i.lo && r <= i.hi, "a clipped value lies in the interval");
  vf_same(r, want(i, v), "a value inside is unchanged, one outside moves to the nearest bound");
  vf_assert(c == out(i, v), "clipping is reported exactly when it happens");
}
VF_B(list) {
  vf_lazy(1);
  const I i = interval();
  const int n = vf_choice("length", 5);
  std::vector<float> v, r;
  bool o = false;
  for (int k = 0; k < n; ++k) { v.push_back(num("v")); o = o | out(i, v[k]); }
  r = v;
  const bool c = clipData(i.lo, i.hi, r);
  vf_assert((int)r.size() == n, "the list keeps its length");
  for (int k = 0; k < n; ++k) vf_same(r[k], want(i, v[k]), "every element of the list is clipped");
  vf_assert(c == o, "clipping is reported exactly when some element was clipped");
}
VF_B(lists) {
  vf_lazy(1);
  const I i = interval();
  std::vector<std::vector<float> > v(vf_choice("lists", 3)), r;
  bool o = false;
  for (size_t k = 0; k < v.size(); ++k) {
    const int n = vf_choice("length", 3);
    for (int j = 0; j < n; ++j) { v[k].push_back(num("v")); o = o | out(i, v[k][j]); }
  }
  r = v;
  const bool c = clipData(i.lo, i.hi, r);
  vf_assert(r.size() == v.size(), "the lists keep their lengths");
  for (size_t k = 0; k < v.size(); ++k) {
    vf_assert(r[k].size() == v[k].size(), "the lists keep their lengths");
    for (size_t j = 0; j < v[k].size(); ++j) vf_same(r[k][j], want(i, v[k][j]), "every element of every list is clipped");
  }
  vf_assert(c == o, "clipping is reported exactly when some element was clipped");
}
