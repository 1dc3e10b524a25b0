// SRC: src/scenegraph/urdf.cpp
// MOCK: tree
// DEFS: BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
// BOUND: poses within 10 with one or two of their three angles not null (every value within +-3.1, pitch +-1.5), or, for the inverse, all three; re-rooting: a chain of two joints and a side branch, with every position in range, and every joint position; with a turned joint origin or root frame, the turns are those listed in the harness
// ASSUME: the text form of a number is replaced by a token which stands for its value (boost's number parsing and printing are not part of the encoding)
#include "vf.h"
#include <almath/scenegraph/urdf.h>
#include <stdexcept>
using namespace AL::urdf;
static double num(const char *n) { return vf_dreal(n, -10, 10); }
static Array3d vec(const char *n) { Array3d a; for (int i = 0; i < 3; ++i) a[i] = num(n); return a; }
static bool maybe(const char *n) { return vf_choice(n, 2) != 0; }
struct F { double r[3][3], p[3]; };
static F ident() { F f; for (int i = 0; i < 3; ++i) { f.p[i] = 0; for (int j = 0; j < 3; ++j) f.r[i][j] = i == j; } return f; }
static F turn(int axis, double t) {
  F f = ident();
  const double c = std::cos(t), s = std::sin(t);
  const int i = (axis + 1) % 3, j = (axis + 2) % 3;
  f.r[i][i] = f.r[j][j] = c; f.r[i][j] = -s; f.r[j][i] = s;
  return f;
}
static F mul(const F &a, const F &b) {
  F f;
  for (int i = 0; i < 3; ++i) {
    f.p[i] = a.p[i];
    for (int k = 0; k < 3; ++k) f.p[i] += a.r[i][k] * b.p[k];
    for (int j = 0; j < 3; ++j) { f.r[i][j] = 0; for (int k = 0; k < 3; ++k) f.r[i][j] += a.r[i][k] * b.r[k][j]; }
  }
  return f;
}
static F inv(const F &a) {
  F f;
  for (int i = 0; i < 3; ++i) { f.p[i] = 0; for (int j = 0; j < 3; ++j) { f.r[i][j] = a.r[j][i]; f.p[i] -= a.r[j][i] * a.p[j]; } }
  return f;
}
static F frame(const Pose &p) {
  F f = ident();
  const Array3d r = p.rpy();
  for (int k = 2; k >= 0; --k) f = mul(f, turn(k, r[k]));
  for (int i = 0; i < 3; ++i) f.p[i] = p.xyz()[i];
  return f;
}
static void close(const F &a, const F &b, double tol, const char *w) {
  for (int i = 0; i < 3; ++i) { vf_close(a.p[i], b.p[i], tol, w); for (int j = 0; j < 3; ++j) vf_close(a.r[i][j], b.r[i][j], tol, w); }
}
static double angle(const char *n, int k) { return k == 1 ? vf_angle(n, -1.5, 1.5, 2) : vf_angle(n, -3.1, 3.1, 2); }
static Pose one(const char *n, int k) {      // a turn about one axis, none for k = 3
  const Array3d x = vec(n);
  Array3d r{{0, 0, 0}};
  if (k < 3) r[k] = angle(n, k);
  return Pose(x, r);
}
VF_R(inverse) {
  const Pose p = one("p", vf_choice("axis", 4)), q = p.inverse();
  close(frame(q), inv(frame(p)), 1e-6, "inverse of a pose");
}
VF_R(inverseTwo) {
  const int out = vf_choice("without", 3);
  const Array3d x = vec("x");
  Array3d r{{0, 0, 0}};
  for (int k = 0; k < 3; ++k) if (k != out) r[k] = angle("rpy", k);
  const Pose p(x, r);
  const F f = inv(frame(p));
  vf_assume(f.r[0][0] * f.r[0][0] + f.r[1][0] * f.r[1][0] > 0.01);    // away from the gimbal lock of the inverse
  vf_bound(f.r[0][0] * f.r[0][0] + f.r[1][0] * f.r[1][0], 0.0099, 1.0001);
  close(frame(p.inverse()), f, 1e-6, "inverse of a pose");
}
VF_R(product) {
  const int k = vf_choice("axis", 4), l = vf_choice("axis", 4);
  if (k == 1 && l == 1) return;
  const Pose p = one("p", k), q = one("q", l);
  const F f = mul(frame(p), frame(q));
  vf_assume(f.r[0][0] * f.r[0][0] + f.r[1][0] * f.r[1][0] > 0.01);    // away from gimbal lock
  vf_bound(f.r[0][0] * f.r[0][0] + f.r[1][0] * f.r[1][0], 0.0099, 1.0001);
  close(frame(p * q), f, 1e-6, "product of poses");
}
VF_R(identity) {
  const Pose p = one("p", vf_choice("axis", 4)), e;
  vf_assert(is_identity(e), "the default pose is the identity");
  const Pose l = e * p, r = p * e;
  for (int i = 0; i < 3; ++i) {
    vf_close(l.xyz()[i], p.xyz()[i], 1e-12, "left identity"); vf_close(r.xyz()[i], p.xyz()[i], 1e-12, "right identity");
    vf_close(l.rpy()[i], p.rpy()[i], 0, "left identity"); vf_close(r.rpy()[i], p.rpy()[i], 0, "right identity");
  }
}
// ---- links a (root), b under a by joint B, c under b by joint C, d under a by joint D
static std::string text(const Array3d &a) { return vft::token(a[0]) + " " + vft::token(a[1]) + " " + vft::token(a[2]); }
static void put(ptree &p, const char *at, const Pose &o) {
  const std::string s(at);
  p.put(s + ".<xmlattr>.xyz", text(o.xyz()));
  if (!is_zero(o.rpy())) p.put(s + ".<xmlattr>.rpy", text(o.rpy()));
}
static void link(ptree &r, const char *n, const Pose &com) {
  ptree p;
  p.put("<xmlattr>.name", std::string(n));
  put(p, "inertial.origin", com);
  p.put("visual.geometry.sphere.<xmlattr>.radius", 1.0);
  put(p, "visual.origin", com);
  r.add_child("link", p);
}
static void joint(ptree &r, const char *n, const char *up, const char *down, const char *type, const Pose *o, const double *axis) {
  ptree p;
  p.put("<xmlattr>.name", std::string(n));
  p.put("<xmlattr>.type", std::string(type));
  if (o) put(p, "origin", *o);
  p.put("parent.<xmlattr>.link", std::string(up));
  p.put("child.<xmlattr>.link", std::string(down));
  if (axis) p.put("axis.<xmlattr>.xyz", text(Array3d{{axis[0], axis[1], axis[2]}}));
  r.add_child("joint", p);
}
// motion of a joint at position q: a turn about, or a slide along, its axis, which is a coordinate axis
static F motion(const Joint &j, double q) {
  if (j.type() == Joint::fixed) return ident();
  const Array3d a = j.axis();
  for (int k = 0; k < 3; ++k) {
    if (a[k] == 0) continue;
    if (j.type() != Joint::prismatic) return turn(k, a[k] > 0 ? q : -q);
    F f = ident();
    f.p[k] = a[k] > 0 ? q : -q;
    return f;
  }
  return ident();
}
static F world(const RobotTree &t, const std::string &l, const double *q, const ptree &robot) {
  if (l == t.root_link()) return ident();
  for (const auto &e : robot) {
    if (e.first != "joint" || child_link(e.second) != l) continue;
    const Joint j(e.second);
    return mul(world(t, j.parent_link(), q, robot), mul(frame(j.origin()), motion(j, q[j.name()[0] - 'B'])));
  }
  return ident();
}
static F com(const RobotTree &t, const char *l, const double *q, const ptree &robot, bool visual) {
  const Link k(t.link(l));
  return mul(world(t, l, q, robot), frame(visual ? k.visuals().front().origin() : k.inertial()->origin()));
}
// places whose first coordinates are in disjoint ranges, so that none of their differences is null
static Array3d place(const char *n, double lo) { Array3d a; a[0] = vf_dreal(n, lo, lo + 1); a[1] = num(n); a[2] = num(n); return a; }
static void mechanism(bool turned, int root) {
  ptree r;
  const char *n[] = {"a", "b", "c", "d"};
  // links, then joints
  for (int k = 0; k < 4; ++k) link(r, n[k], Pose(place("com", 7), Array3d{{0, 0, 0}}));
  Array3d rb{{0, 0, 0}};
  if (turned) { rb[0] = vf_angle("ob", 0.2, 3.1, 2); if (maybe("left")) rb[0] = -rb[0]; }
  const Pose ob(place("ob", 1), rb), oc(place("oc", 3), Array3d{{0, 0, 0}}), od(place("od", 5), Array3d{{0, 0, 0}});
  const double axes[][3] = {{0, 0, 1}, {-1, 0, 0}, {0, -1, 0}};
  const char *types[] = {"revolute", "prismatic", "continuous", "fixed"};
  const int v0 = turned ? 0 : vf_choice("variant", 6);
  const int ax = v0 == 0 ? 3 : v0 % 3;                     // 3: no axis element
  const bool none = v0 == 5;
  joint(r, "B", "a", "b", v0 < 4 ? types[v0] : "revolute", none ? 0 : &ob, ax < 3 ? axes[ax] : 0);
  joint(r, "C", "b", "c", "revolute", &oc, axes[0]);
  joint(r, "D", "a", "d", "revolute", &od, 0);
  const double q[3] = {turned ? 0 : vf_angle("q", -3.1, 3.1, 2), 0, 0};
  RobotTree t(r);
  F rel[2][4];
  for (int v = 0; v < 2; ++v) {
    const F a = inv(com(t, "a", q, r, v));
    for (int k = 1; k < 4; ++k) rel[v][k] = mul(a, com(t, n[k], q, r, v));
  }
  t.define_as_root_link(n[root]);
  vf_assert(t.root_link() == n[root], "the link is the new root");
  for (int v = 0; v < 2; ++v) {
    const F a = inv(com(t, "a", q, r, v));
    for (int k = 1; k < 4; ++k) close(mul(a, com(t, n[k], q, r, v)), rel[v][k], 1e-6, "the bodies keep their relative places, whatever the joint positions");
  }
  ptree copy = r;
  RobotTree u(copy);
  vf_assert(u.root_link() == n[root] && copy.size() == r.size() && r.size() == 7, "the file describes the new tree");
}
VF_R(rerootB) { mechanism(false, 1); }
VF_R(rerootC) { mechanism(false, 2); }
VF_R(rerootD) { mechanism(false, 3); }
// two links, the origin of their joint being turned
VF_R(rerootTurned) {
  ptree r;
  link(r, "a", Pose(place("com", 7), Array3d{{0, 0, 0}}));
  link(r, "b", Pose(place("com", 7), Array3d{{0, 0, 0}}));
  const double turns[][3] = {{0.7, 0, 0}, {-2, 0, 0}, {0, 1.2, 0}, {0, 0, -0.5}, {0.4, -0.9, 2.5}};
  const double *w = turns[vf_choice("turn", 5)];
  const Pose o(place("o", 1), Array3d{{w[0], w[1], w[2]}});
  joint(r, "B", "a", "b", "revolute", &o, 0);
  const double q[3] = {0, 0, 0};
  RobotTree t(r);
  const F x = mul(inv(com(t, "a", q, r, false)), com(t, "b", q, r, false));
  t.define_as_root_link("b");
  close(mul(inv(com(t, "a", q, r, false)), com(t, "b", q, r, false)), x, 1e-6, "the bodies keep their relative places");
}
VF_R(rerootSame) { mechanism(false, 0); }
VF_B(rerootRefused) {
  ptree r;
  const Pose o;
  for (const char *n : {"a", "b", "c"}) { ptree p; p.put("<xmlattr>.name", std::string(n)); r.add_child("link", p); }
  const char *types[] = {"floating", "planar", "fixed"};
  const int k = vf_choice("first", 3), l = vf_choice("second", 3), to = vf_choice("root", 3);
  joint(r, "B", "a", "b", types[k], 0, 0);
  joint(r, "C", "b", "c", types[l], 0, 0);
  RobotTree t(r);
  bool thrown = false, unknown = false;
  const char *n[] = {"a", "b", "c"};
  try { t.define_as_root_link(n[to]); } catch (const std::runtime_error &) { thrown = true; }
  const bool bad = (to >= 1 && k < 2) || (to == 2 && l < 2);
  vf_assert(thrown == bad, "a joint with several degrees of freedom between the roots is refused");
  vf_assert(t.root_link() == n[bad ? 0 : to], "a refused root changes nothing");
  try { t.define_as_root_link("z"); } catch (const std::out_of_range &) { unknown = true; }
  vf_assert(unknown, "an unknown root is refused");
}
// the origin of the joint is that of the centre of mass of a, or of the next joint
VF_R(rerootCoincident) {
  ptree r;
  const Array3d z{{0, 0, 0}}, x = vec("x");
  const int k = vf_choice("coincident", 3), root = vf_choice("root", 2);
  const Pose o(x, z), other(place("y", 20), z), third(place("t", 40), z);
  link(r, "a", k == 0 ? o : other);
  link(r, "b", k == 1 ? o : other);
  link(r, "c", third);
  joint(r, "B", "a", "b", "revolute", &o, 0);
  if (k == 2) joint(r, "C", "a", "c", "revolute", &o, 0); else joint(r, "C", "b", "c", "revolute", &third, 0);
  const double q[3] = {0, 0, 0};
  RobotTree t(r);
  F rel[4];
  const char *n[] = {"a", "b", "c"};
  const F a = inv(com(t, "a", q, r, false));
  for (int i = 1; i < 3; ++i) rel[i] = mul(a, com(t, n[i], q, r, false));
  t.define_as_root_link(root ? "c" : "b");
  const F b = inv(com(t, "a", q, r, false));
  for (int i = 1; i < 3; ++i) close(mul(b, com(t, n[i], q, r, false)), rel[i], 1e-6, "the bodies keep their relative places");
}
// moving the frame of the root link moves everything it carries by the inverse
VF_R(transport) {
  ptree r;
  const int k = vf_choice("axis", 4);
  link(r, "a", Pose(place("com", 7), Array3d{{0, 0, 0}}));
  link(r, "b", Pose(place("com", 7), Array3d{{0, 0, 0}}));
  const Pose o(place("o", 20), Array3d{{0, 0, 0}});
  const double p = vf_dreal("m", -4, 4), u = vf_dreal("m", -4, 4), v = vf_dreal("m", -4, 4);
  Array3d g{{0, 0, 0}};
  const double by[] = {0.8, -1.3, 0.01};
  if (k < 3) g[k] = by[vf_choice("by", 3)];
  const Pose m(Array3d{{p, u, v}}, g);
  joint(r, "B", "a", "b", "revolute", maybe("no origin") ? 0 : &o, 0);
  RobotTree t(r);
  const F i = inv(frame(m)), j = mul(i, frame(Joint(t.joint("B")).origin())), c = mul(i, frame(Link(t.link("a")).inertial()->origin())), b = frame(Link(t.link("b")).inertial()->origin());
  t.transport_root_link_frame(m);
  close(frame(Joint(t.joint("B")).origin()), j, 1e-6, "the joints of the root are moved by the inverse of the pose");
  close(frame(Link(t.link("a")).inertial()->origin()), c, 1e-6, "the mass of the root is moved by the inverse of the pose");
  close(frame(Link(t.link("a")).visuals().front().origin()), c, 1e-6, "the visuals of the root are moved by the inverse of the pose");
  close(frame(Link(t.link("b")).inertial()->origin()), b, 0, "other links are not moved");
}
VF_R(transportSame) {     // moving the frame onto an origin
  ptree r;
  const Pose m = one("m", vf_choice("axis", 4));
  link(r, "a", m);
  link(r, "b", Pose());
  joint(r, "B", "a", "b", "revolute", &m, 0);
  RobotTree t(r);
  t.transport_root_link_frame(m);
  vf_assert(is_identity(Joint(t.joint("B")).origin()) && is_identity(Link(t.link("a")).inertial()->origin()) && is_identity(Link(t.link("a")).visuals().front().origin()), "an origin equal to the pose becomes the identity, exactly");
}
