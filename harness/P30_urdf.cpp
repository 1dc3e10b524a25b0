// SRC: src/scenegraph/urdf.cpp
// MOCK: tree
// DEFS: BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
// BOUND: elements with every subset of their attributes, numbers in [-10,10] (all values); triples written with every kind of blank between numbers, with too few or too many numbers, or with a word in place of a number
// ASSUME: the text form of a number is replaced by a token which stands for its value (boost's number parsing and printing are not part of the encoding)
#include "vf.h"
#include <almath/scenegraph/urdf.h>
#include <stdexcept>
using namespace AL::urdf;
static double num(const char *n) { return vf_dreal(n, -10, 10); }
static Array3d vec(const char *n) { Array3d a; for (int i = 0; i < 3; ++i) a[i] = num(n); return a; }
static bool maybe(const char *n) { return vf_choice(n, 2) != 0; }
static void same(const Array3d &a, const Array3d &b, const char *w) { for (int i = 0; i < 3; ++i) vf_close(a[i], b[i], 0, w); }
static std::string text(const Array3d &a, const char *b0 = "", const char *b1 = " ", const char *b2 = " ", const char *b3 = "") {
  return std::string(b0) + vft::token(a[0]) + b1 + vft::token(a[1]) + b2 + vft::token(a[2]) + b3;
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
VF_R(triple) {
  const Array3d a = vec("a");
  Array3dTranslator t;
  const boost::optional<std::string> s = t.put_value(a);
  vf_assert(!!s, "a triple can be written");
  const boost::optional<Array3d> b = t.get_value(*s);
  vf_assert(!!b, "a written triple can be read");
  same(a, *b, "a triple which is written and read keeps its values");
  const char *blank[] = {" ", "\t", "\n", "  ", " \r\n\t "};
  const boost::optional<Array3d> c = t.get_value(text(a, vf_choice("before", 2) ? " " : "", blank[vf_choice("blank", 5)], blank[vf_choice("blank", 5)], vf_choice("after", 2) ? "\n" : ""));
  vf_assert(!!c, "blanks separate the numbers of a triple");
  same(a, *c, "blanks separate the numbers of a triple");
}
VF_R(badTriple) {
  const Array3d a = vec("a");
  Array3dTranslator t;
  const std::string x = vft::token(a[0]), y = vft::token(a[1]), z = vft::token(a[2]);
  const std::string bad[] = {"", " ", x, x + " " + y, x + " " + y + " " + z + " " + x, "w " + x + " " + y, x + " w " + y, x + " " + y + " w", x + "," + y + "," + z, x + " " + y + " " + z + " w"};
  vf_assert(!t.get_value(bad[vf_choice("text", 10)]), "a text which is not three numbers is not a triple");
}
VF_R(pose) {
  ptree p;
  const bool hx = maybe("xyz"), hr = maybe("rpy");
  const Array3d x = vec("x"), r = vec("r");
  if (hx) p.put("<xmlattr>.xyz", text(x));
  if (hr) p.put("<xmlattr>.rpy", text(r));
  const Pose q = Pose::from_ptree(p);
  same(q.xyz(), hx ? x : Array3d{{0, 0, 0}}, "position, zero by default");
  same(q.rpy(), hr ? r : Array3d{{0, 0, 0}}, "angles, zero by default");
  const Pose none = Pose::from_ptree(boost::optional<const ptree &>());
  vf_assert(is_identity(none), "no origin is the identity");
  const boost::optional<ptree> o = q.to_ptree();
  const bool zx = is_zero(q.xyz()), zr = is_zero(q.rpy());
  vf_assert(!!o == !(zx && zr), "only the identity is written as nothing");
  vf_assert(is_identity(q) == (zx && zr), "identity");
  if (!o) return;
  vf_assert(!!o->get_child_optional("<xmlattr>.xyz") == !zx && !!o->get_child_optional("<xmlattr>.rpy") == !zr, "null parts are not written");
  const Pose b = Pose::from_ptree(*o);
  same(b.xyz(), q.xyz(), "a pose which is written and read is the same"); same(b.rpy(), q.rpy(), "a pose which is written and read is the same");
  vf_assert(b == q && !(b != q), "a pose which is written and read is the same");
}
VF_R(badPose) {
  ptree p;
  p.put(maybe("which") ? "<xmlattr>.xyz" : "<xmlattr>.rpy", "w");
  vf_assert(throws([&] { Pose::from_ptree(p); }), "an origin which cannot be read is refused");
}
VF_R(poseEqual) {
  const Array3d x = vec("x"), r = vec("r");
  const int k = vf_choice("component", 6);
  const double d = vf_dreal("d", -3, 3);
  Array3d y = x, s = r;
  (k < 3 ? y[k] : s[k - 3]) = d;
  const bool eq = (k < 3 ? x[k] : r[k - 3]) == d;
  vf_assert((Pose(x, r) == Pose(y, s)) == eq && (Pose(x, r) != Pose(y, s)) == !eq, "poses are equal when all their components are");
  vf_assert(is_ones(x) == (x[0] == 1 && x[1] == 1 && x[2] == 1) && is_zero(x) == (x[0] == 0 && x[1] == 0 && x[2] == 0), "zero and one triples");
}
static const char *types[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar"};
VF_R(joint) {
  ptree p;
  const Joint j(p);
  p.put("<xmlattr>.name", "j");
  const int t = vf_choice("type", 6);
  p.put("<xmlattr>.type", std::string(types[t]));
  p.put("parent.<xmlattr>.link", "up");
  p.put("child.<xmlattr>.link", "down");
  const Joint::Type tt[] = {Joint::revolute, Joint::continuous, Joint::prismatic, Joint::fixed, Joint::floating, Joint::planar};
  vf_assert(j.name() == "j" && name(p) == "j" && j.type() == tt[t], "name and type of a joint");
  vf_assert(j.parent_link() == "up" && j.child_link() == "down" && parent_link(p) == "up" && child_link(p) == "down", "links of a joint");
  const bool ho = maybe("origin"), ha = maybe("axis");
  const Array3d x = vec("x"), r = vec("r"), a = vec("a");
  if (ho) { p.put("origin.<xmlattr>.xyz", text(x)); p.put("origin.<xmlattr>.rpy", text(r)); }
  if (ha) p.put("axis.<xmlattr>.xyz", text(a));
  same(j.origin().xyz(), ho ? x : Array3d{{0, 0, 0}}, "origin of a joint, null by default");
  same(j.origin().rpy(), ho ? r : Array3d{{0, 0, 0}}, "origin of a joint, null by default");
  same(j.axis(), ha ? a : Array3d{{1, 0, 0}}, "axis of a joint, x by default");
}
VF_R(limits) {
  ptree p;
  const Joint j(p);
  const bool hl = maybe("lower"), hu = maybe("upper"), he = maybe("effort"), hv = maybe("velocity");
  const double l = num("l"), u = num("u"), e = num("e"), v = num("v");
  if (hl) p.put("limit.<xmlattr>.lower", l);
  if (hu) p.put("limit.<xmlattr>.upper", u);
  if (he) p.put("limit.<xmlattr>.effort", e);
  if (hv) p.put("limit.<xmlattr>.velocity", v);
  const auto lu = j.limit_lower_upper();
  vf_assert(!!lu == (hl || hu), "there are limits when there is a lower or an upper limit");
  if (lu) { vf_close(lu->first, hl ? l : 0, 0, "lower limit, zero by default"); vf_close(lu->second, hu ? u : 0, 0, "upper limit, zero by default"); }
  vf_assert(!!j.limit_effort() == he && !!j.limit_velocity() == hv, "effort and velocity limits are optional");
  if (he) vf_close(*j.limit_effort(), e, 0, "effort limit");
  if (hv) vf_close(*j.limit_velocity(), v, 0, "velocity limit");
}
VF_R(mimic) {
  ptree p;
  const Joint j(p);
  vf_assert(!j.mimic(), "a joint mimics nothing by default");
  const bool hm = maybe("multiplier"), ho = maybe("offset");
  const double m = num("m"), o = num("o");
  p.put("mimic.<xmlattr>.joint", "k");
  if (hm) p.put("mimic.<xmlattr>.multiplier", m);
  if (ho) p.put("mimic.<xmlattr>.offset", o);
  const boost::optional<Mimic> c = j.mimic();
  vf_assert(!!c && c->joint() == "k", "the joint which is mimicked");
  vf_close(c->multiplier(), hm ? m : 1, 0, "multiplier, one by default");
  vf_close(c->offset(), ho ? o : 0, 0, "offset, zero by default");
}
VF_R(missing) {
  ptree p;
  const int k = vf_choice("what", 9);
  const Joint j(p); const Inertial in(p); const Link l(p); const Mimic m(p); const Visual v(p);
  bool t = false;
  if (k == 0) t = throws([&] { j.name(); });
  if (k == 1) t = throws([&] { j.type(); });
  if (k == 2) { p.put("<xmlattr>.type", "screw"); t = throws([&] { j.type(); }); }
  if (k == 3) t = throws([&] { j.parent_link(); });
  if (k == 4) t = throws([&] { j.child_link(); });
  if (k == 5) t = throws([&] { in.mass(); });
  if (k == 6) t = throws([&] { l.name(); });
  if (k == 7) t = throws([&] { m.joint(); });
  if (k == 8) { ptree g; p.put_child("geometry", g); t = throws([&] { v.geometry(); }); }
  vf_assert(t, "a missing mandatory attribute, an unknown joint type and a geometry without shape are refused");
}
VF_R(inertial) {
  ptree p;
  Link l(p);
  vf_assert(!l.inertial(), "a link has no inertial element by default");
  const double m = num("m");
  double i[6];
  for (int k = 0; k < 6; ++k) i[k] = num("i");
  const char *n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  p.put("<xmlattr>.name", "l");
  p.put("inertial.mass.<xmlattr>.value", m);
  for (int k = 0; k < 6; ++k) p.put(std::string("inertial.inertia.<xmlattr>.") + n[k], i[k]);
  const bool ho = maybe("origin");
  const Array3d x = vec("x"), r = vec("r");
  if (ho) { p.put("inertial.origin.<xmlattr>.xyz", text(x)); p.put("inertial.origin.<xmlattr>.rpy", text(r)); }
  vf_assert(l.name() == "l" && !!l.inertial(), "name and inertial element of a link");
  const Inertial in = *l.inertial();
  vf_close(in.mass(), m, 0, "mass");
  vf_close(in.ixx(), i[0], 0, "inertia"); vf_close(in.ixy(), i[1], 0, "inertia"); vf_close(in.ixz(), i[2], 0, "inertia");
  vf_close(in.iyy(), i[3], 0, "inertia"); vf_close(in.iyz(), i[4], 0, "inertia"); vf_close(in.izz(), i[5], 0, "inertia");
  same(in.origin().xyz(), ho ? x : Array3d{{0, 0, 0}}, "origin of an inertial element"); same(in.origin().rpy(), ho ? r : Array3d{{0, 0, 0}}, "origin of an inertial element");
}
VF_R(visuals) {
  ptree p;
  const int n = vf_choice("visuals", 4), where = vf_choice("where", 3);
  const double a = num("a"), b = num("b");
  const Array3d s = vec("s");
  const bool hs = maybe("scale");
  p.put("<xmlattr>.name", "l");
  const int k0 = vf_choice("shape", 4);
  for (int i = 0; i < 3; ++i) {
    if (i == where) p.add_child("collision", ptree());
    if (i >= n) continue;
    ptree v;
    const int k = (k0 + i) % 4;
    v.put("origin.<xmlattr>.xyz", text(Array3d{{a + i, 0, 0}}));
    if (k == 0) v.put("geometry.box.<xmlattr>.size", text(s));
    if (k == 1) { v.put("geometry.cylinder.<xmlattr>.radius", a); v.put("geometry.cylinder.<xmlattr>.length", b); }
    if (k == 2) v.put("geometry.sphere.<xmlattr>.radius", b);
    if (k == 3) { v.put("geometry.mesh.<xmlattr>.filename", "f.dae"); if (hs) v.put("geometry.mesh.<xmlattr>.scale", text(s)); }
    p.add_child("visual", v);
  }
  int i = 0;
  const Link l(p);
  for (const Visual &v : l.visuals()) {
    const int k = (k0 + i) % 4;
    vf_assert(i < n, "the visuals of a link are its visual elements");
    vf_close(v.origin().xyz()[0], a + i, 1e-12, "visuals keep the order of the file");
    const Geometry g = v.geometry();
    vf_assert(g.which() == k, "the geometry has the shape of its element");
    if (k == 0) { Box x = boost::get<Box>(g); same(x.size(), s, "box size"); }
    if (k == 1) { Cylinder x = boost::get<Cylinder>(g); vf_close(x.radius(), a, 0, "cylinder radius"); vf_close(x.length(), b, 0, "cylinder length"); }
    if (k == 2) { Sphere x = boost::get<Sphere>(g); vf_close(x.radius(), b, 0, "sphere radius"); }
    if (k == 3) { Mesh x = boost::get<Mesh>(g); vf_assert(x.filename() == "f.dae", "mesh file"); same(x.scale(), hs ? s : Array3d{{1, 1, 1}}, "mesh scale, one by default"); }
    ++i;
  }
  vf_assert(i == n, "the visuals of a link are its visual elements");
}
// file names: of the textures of the robot, of the textures and meshes of the links' visuals, and nothing else
VF_R(filenames) {
  ptree p;
  const int k = vf_choice("place", 6);
  const bool has = maybe("present");
  const char *path[] = {"material.texture", "link.visual.geometry.mesh", "link.visual.material.texture", "link.collision.geometry.mesh", "joint.mesh", "link.visual.geometry.box"};
  p.put("link.<xmlattr>.name", "l");
  p.put("link.visual.<xmlattr>.name", "v");
  p.put("link.visual.geometry.other", "o");
  const std::string at = std::string(path[k]) + ".<xmlattr>.filename";
  p.put_child(path[k], ptree());
  if (has) p.put(at, "old");
  const std::string before = p.get<std::string>("link.<xmlattr>.name");
  int n = 0;
  std::string seen;
  robot::transform_filenames(p, [&](std::string s) { ++n; seen = s; return s + "er"; });
  vf_assert(n == (has && k < 3 ? 1 : 0), "the names of the texture and visual mesh files are transformed once, and nothing else is");
  if (has) vf_assert(p.get<std::string>(at) == (k < 3 ? "older" : "old"), "a file name is replaced by its image");
  else vf_assert(!p.get_optional<std::string>(at), "a missing file name stays missing");
  if (has && k < 3) vf_assert(seen == "old", "the transformation is given the file name");
  vf_assert(p.get<std::string>("link.<xmlattr>.name") == "l", "names are kept");
}
VF_R(names) {
  ptree p;
  if (maybe("named")) p.put("<xmlattr>.name", "x");
  p.put("a.b", "c");
  put_name(p, "y");
  vf_assert(name(p) == "y" && p.get<std::string>("a.b") == "c" && p.get_child("<xmlattr>").size() == 1, "naming an element replaces its name only");
}
