// Shared generators and oracles for the harnesses.  Oracles are written in
// double, straight from the mathematical definition.
#pragma once
#include "vf.h"
#include <almath/types/altransform.h>
#include <almath/types/alrotation.h>
#include <string>
namespace vfg {
using namespace AL::Math;
struct Q4 { double w, x, y, z; };
struct M3 { double m[3][3]; };
inline Q4 unitQ(const char *n) { float v[4]; vf_unitn(n, 4, v); return Q4{v[0], v[1], v[2], v[3]}; }
inline M3 qmat(const Q4 &q) {
  M3 r;
  r.m[0][0] = 1 - 2 * (q.y * q.y + q.z * q.z); r.m[0][1] = 2 * (q.x * q.y - q.z * q.w); r.m[0][2] = 2 * (q.x * q.z + q.y * q.w);
  r.m[1][0] = 2 * (q.x * q.y + q.z * q.w); r.m[1][1] = 1 - 2 * (q.x * q.x + q.z * q.z); r.m[1][2] = 2 * (q.y * q.z - q.x * q.w);
  r.m[2][0] = 2 * (q.x * q.z - q.y * q.w); r.m[2][1] = 2 * (q.y * q.z + q.x * q.w); r.m[2][2] = 1 - 2 * (q.x * q.x + q.y * q.y);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = vf_fact(r.m[i][j], -1, 1);   // entries of a rotation
  return r;
}
inline void put(const M3 &m, Rotation &r) {
  r.r1_c1 = m.m[0][0]; r.r1_c2 = m.m[0][1]; r.r1_c3 = m.m[0][2];
  r.r2_c1 = m.m[1][0]; r.r2_c2 = m.m[1][1]; r.r2_c3 = m.m[1][2];
  r.r3_c1 = m.m[2][0]; r.r3_c2 = m.m[2][1]; r.r3_c3 = m.m[2][2];
}
inline void put(const M3 &m, Transform &r) {
  r.r1_c1 = m.m[0][0]; r.r1_c2 = m.m[0][1]; r.r1_c3 = m.m[0][2];
  r.r2_c1 = m.m[1][0]; r.r2_c2 = m.m[1][1]; r.r2_c3 = m.m[1][2];
  r.r3_c1 = m.m[2][0]; r.r3_c2 = m.m[2][1]; r.r3_c3 = m.m[2][2];
}
template <class T> inline M3 rot(const T &t) {
  M3 r;
  r.m[0][0] = t.r1_c1; r.m[0][1] = t.r1_c2; r.m[0][2] = t.r1_c3;
  r.m[1][0] = t.r2_c1; r.m[1][1] = t.r2_c2; r.m[1][2] = t.r2_c3;
  r.m[2][0] = t.r3_c1; r.m[2][1] = t.r3_c2; r.m[2][2] = t.r3_c3;
  return r;
}
struct P3 { double v[3]; };
inline P3 pos(const Transform &t) { return P3{{t.r1_c4, t.r2_c4, t.r3_c4}}; }
inline M3 mul(const M3 &a, const M3 &b) {
  M3 r;
#pragma clang loop unroll(full)
  for (int i = 0; i < 3; ++i)
#pragma clang loop unroll(full)
    for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
  return r;
}
inline P3 mul(const M3 &a, const P3 &b) {
  P3 r;
  for (int i = 0; i < 3; ++i) r.v[i] = a.m[i][0] * b.v[0] + a.m[i][1] * b.v[1] + a.m[i][2] * b.v[2];
  return r;
}
inline M3 tr(const M3 &a) {
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i];
  return r;
}
inline M3 eye() { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = i == j; return r; }
inline double det(const M3 &a) {
  return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) +
         a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]);
}
inline P3 add(const P3 &a, const P3 &b) { return P3{{a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2]}}; }
inline P3 neg(const P3 &a) { return P3{{-a.v[0], -a.v[1], -a.v[2]}}; }
// generic 3x3 block: every entry free in [-1,1]; rigid(): orthonormal block
inline M3 anyM(const char *n) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = vf_real(n, -1, 1); return r; }
inline Transform anyT(const char *n, double b = 10) {
  Transform t;
  put(anyM(n), t);
  t.r1_c4 = vf_real(n, -b, b); t.r2_c4 = vf_real(n, -b, b); t.r3_c4 = vf_real(n, -b, b);
  return t;
}
inline Rotation anyR(const char *n) { Rotation r; put(anyM(n), r); return r; }
inline Rotation rigidR(const char *n) { Rotation r; put(qmat(unitQ(n)), r); return r; }
inline Transform rigidT(const char *n, const char *p, double b = 10) {
  Transform t;
  put(qmat(unitQ(n)), t);
  t.r1_c4 = vf_real(p, -b, b); t.r2_c4 = vf_real(p, -b, b); t.r3_c4 = vf_real(p, -b, b);
  return t;
}
inline void close(const M3 &a, const M3 &b, double tol, const char *w) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_close(a.m[i][j], b.m[i][j], tol, w);
}
inline void close(const P3 &a, const P3 &b, double tol, const char *w) { for (int i = 0; i < 3; ++i) vf_close(a.v[i], b.v[i], tol, w); }
inline void closeT(const Transform &a, const Transform &b, double tr_, double tp, const char *w) { close(rot(a), rot(b), tr_, w); close(pos(a), pos(b), tp, w); }
inline void closeT(const Transform &a, const M3 &r, const P3 &p, double tr_, double tp, const char *w) { close(rot(a), r, tr_, w); close(pos(a), p, tp, w); }
}
