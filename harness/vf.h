// Harness interface.  The same harness source is (1) compiled to LLVM IR and
// executed symbolically, and (2) compiled natively to replay solver models.
#pragma once
#include <cmath>
#include <cstdint>
extern "C" {
// inputs
float vf_real(const char *name, double lo, double hi);   // any float in [lo,hi]
double vf_dreal(const char *name, double lo, double hi);
float vf_float(const char *name);                         // any float at all (B domain)
float vf_angle(const char *name, double lo, double hi, int k);  // trig based on angle/k
int vf_int(const char *name, int lo, int hi);
int vf_choice(const char *name, int n);                   // 0..n-1, one path each
void vf_unitn(const char *name, int n, float *out);       // unit vector
// obligations
void vf_assume(bool c);
void vf_assert(bool c, const char *what);
void vf_close(double a, double b, double tol, const char *what);
void vf_same(float a, float b, const char *what);         // equal (or both NaN)
void vf_bound(double x, double lo, double hi);            // proved interval lemma
double vf_fact(double x, double lo, double hi);            // stated range (elementary mathematics)
double vf_qshift(const char *name, int k, int sg, double lo, double hi, float *out);  // unit quaternion, base variable f=w+sg*q_k in [lo,hi]
void vf_root(double r);                                   // sqrt hint (checked): sqrt(r*r)=|r|
int vf_symbolic(void);
void vf_lazy(int on);                                      // explore branches without feasibility queries
void vf_reach(const char *what);
}
// VF_B: bit-precise floats;  VF_R: reals + rounding-error bounds
#define VF_B(name) extern "C" __attribute__((used)) void vfB_##name()
#define VF_R(name) extern "C" __attribute__((used)) void vfR_##name()
