// SRC: @core src/geometrics/shapes3d.cpp src/geometrics/shapes3d_utils.cpp
// BOUND: dimensions: every float bit pattern; pill ends: half extents 0.02 to 8, directions with |x| at least 0.7, or in the plane yz at least 0.1 rad away from z, or along z, centres within 10 (2 for the first kind); end transforms: every rotation block with entries in [-1,1], translations within 10
#include "types.h"
#include "gen.h"
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <cstring>
using namespace vfg;
VF_B(getters) {
  const float a = vf_float("a"), b = vf_float("b"), c = vf_float("c");
  const Sphere s(a);
  vf_same(s.getRadius(), a, "sphere radius");
  const RoundedRectangle r(a, b, c);
  vf_same(r.getHalfExtentX(), a, "rounded rectangle half extent x"); vf_same(r.getHalfExtentY(), b, "rounded rectangle half extent y"); vf_same(r.getRadius(), c, "rounded rectangle radius");
  const Pill p(a, b);
  vf_same(p.getHalfExtent(), a, "pill half extent"); vf_same(p.getRadius(), b, "pill radius");
  const Rectangle q(a, b);
  vf_same(q.getHalfExtentX(), a, "rectangle half extent x"); vf_same(q.getHalfExtentY(), b, "rectangle half extent y");
}
struct Note : public Shape3DVisitor {
  int *kind; const void **who; int *n;
  Note(int *k, const void **w, int *c) : kind(k), who(w), n(c) {}
  void put(int k, const void *w) const { *kind = k; *who = w; ++*n; }
  void visit(const Pill &s) const { put(0, &s); }
  void visit(const Sphere &s) const { put(1, &s); }
  void visit(const RoundedRectangle &s) const { put(2, &s); }
  void visit(const Plane &s) const { put(3, &s); }
  void visit(const HalfSpace &s) const { put(4, &s); }
  void visit(const Rectangle &s) const { put(5, &s); }
  void visit(const HalfLine &s) const { put(6, &s); }
};
VF_B(dispatch) {
  const float a = vf_float("a"), b = vf_float("b"), c = vf_float("c");
  const Pill p(a, b); const Sphere s(a); const RoundedRectangle rr(a, b, c); const Plane pl; const HalfSpace h; const Rectangle r(a, b); const HalfLine hl;
  const Shape3D *all[] = {&p, &s, &rr, &pl, &h, &r, &hl};
  const void *id[] = {&p, &s, &rr, &pl, &h, &r, &hl};
  const int k = vf_choice("shape", 7);
  int kind = -1, n = 0;
  const void *who = 0;
  all[k]->accept(Note(&kind, &who, &n));
  vf_assert(n == 1, "a shape makes exactly one visit");
  vf_assert(kind == k, "the visit is that of the type of the shape");
  vf_assert(who == id[k], "the visited shape is the shape itself");
}
struct OnlyPill : public NotImplementedShape3DVisitor {
  int *n;
  OnlyPill(int *c, const char *m) : NotImplementedShape3DVisitor(m), n(c) {}
  using NotImplementedShape3DVisitor::visit;
  void visit(const Pill &) const { ++*n; }
};
VF_B(refusal) {
  const Pill p(1, 2); const Sphere s(1); const RoundedRectangle rr(1, 2, 3); const Plane pl; const HalfSpace h; const Rectangle r(1, 2); const HalfLine hl;
  const Shape3D *all[] = {&p, &s, &rr, &pl, &h, &r, &hl};
  const int k = vf_choice("shape", 7), own = vf_choice("derived", 2);
  bool thrown = false, msg = false;
  int n = 0;
  try { if (own) all[k]->accept(OnlyPill(&n, "my text")); else all[k]->accept(NotImplementedShape3DVisitor()); }
  catch (const std::runtime_error &e) { thrown = true; msg = !std::strcmp(e.what(), own ? "my text" : "not implemented"); }
  if (own && k == 0) { vf_assert(!thrown && n == 1, "an implemented visit is made"); return; }
  vf_assert(thrown, "a visit which is not implemented throws");
  vf_assert(msg, "the exception carries the message");
  vf_assert(n == 0, "no other visit is made");
}
VF_R(centers) {
  const float h = vf_real("h", -10, 10);
  const Transform t = anyT("t");
  Position3D a, b;
  a = anyv<Position3D>("junk", 10); b = a;
  getSphereCentersFromPill(h, t, a, b);
  vf_close(a.x, t.r1_c4 + (double)h * t.r1_c3, 2e-5, "first centre"); vf_close(a.y, t.r2_c4 + (double)h * t.r2_c3, 2e-5, "first centre"); vf_close(a.z, t.r3_c4 + (double)h * t.r3_c3, 2e-5, "first centre");
  vf_close(b.x, t.r1_c4 - (double)h * t.r1_c3, 2e-5, "second centre"); vf_close(b.y, t.r2_c4 - (double)h * t.r2_c3, 2e-5, "second centre"); vf_close(b.z, t.r3_c4 - (double)h * t.r3_c3, 2e-5, "second centre");
}
static void pill(const float *u, float h, double far) {   // ends c -+ h u
  const Position3D c = anyv<Position3D>("c", far);
  Position3D A, B;
  A.x = c.x - h * u[0]; A.y = c.y - h * u[1]; A.z = c.z - h * u[2];
  B.x = c.x + h * u[0]; B.y = c.y + h * u[1]; B.z = c.z + h * u[2];
  float he = -1;
  Transform T;
  for (int i = 0; i < 12; ++i) at(T, i) = 7;
  vf_root(2 * (double)h);
  computePillParameters(A, B, he, T);
  vf_close(he, h, 2e-3, "the half extent is half the distance between the centres");
  for (int i = 0; i < 3; ++i) vf_close(get(T, 4 * i + 3), get(c, i), 1e-4, "the pill is centred half way");
  for (int i = 0; i < 3; ++i) vf_close(get(T, 4 * i + 2), u[i], 2e-3, "the third axis goes from the first centre to the second");
  const M3 m = rot(T);
  close(mul(tr(m), m), eye(), 5e-2, "the axes of the pill are orthonormal");
  vf_close(det(m), 1, 5e-2, "the axes of the pill are direct");
  Position3D P, Q;
  getSphereCentersFromPill(he, T, P, Q);
  for (int i = 0; i < 3; ++i) { vf_close(get(P, i), get(B, i), 3e-2, "the sphere centres of the pill are the given ones"); vf_close(get(Q, i), get(A, i), 3e-2, "the sphere centres of the pill are the given ones"); }
}
static float extent() {
  const float scale[] = {1, 0.0625f, 4};
  return vf_real("h", 1, 1.25) * scale[vf_choice("scale", 3)];
}
VF_R(pillX) {
  float u[3];
  vf_unitn("u", 3, u);
  const double sg = vf_choice("side", 2) ? -1 : 1;
  vf_assume(sg * u[0] > 0.7);
  vf_bound(sg * u[0], 0.699, 1);
  vf_bound((double)u[0] * u[0] + (double)u[1] * u[1], 0.489, 1.1);
  const float h = extent();
  vf_root(h);
  pill(u, h, 2);
}
VF_R(pillYZ) {
  const float t = vf_angle("t", -3.1, 3.1, 1);
  const float u[3] = {0, std::sin(t), std::cos(t)};
  vf_assume(std::fabs(u[1]) > 0.1);
  const float h = extent();
  vf_root(h);
  pill(u, h, 10);
}
VF_R(pillZ) {
  const float u[3] = {0, 0, vf_choice("side", 2) ? -1.0f : 1.0f};
  pill(u, extent(), 10);
}
