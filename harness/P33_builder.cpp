// SRC: 
// MOCK: format
// BOUND: histories of three additions (links or static frames) with every equality pattern of their one-letter names and the root's; all pose and mass values in [-10,10] for the forwarding and conversion laws
// ASSUME: boost::format is replaced by a stand-in which substitutes %1% only
#include "vf.h"
#include <almath/scenegraph/rigidbodysystembuilder.h>
#include <stdexcept>
#include <vector>
using namespace AL::RigidBodySystemBuilder;
typedef LinkData<double> Link;
typedef StaticFrameData<double> Frame;
template <class T> struct Recorder : public Interface<T> {
  Config cfg;
  std::vector<LinkData<T>> links;
  std::vector<StaticFrameData<T>> frames;
  const Config &config() const { return cfg; }
  void addLink(LinkData<T> l) { links.push_back(l); }
  void addStaticFrame(StaticFrameData<T> f) { frames.push_back(f); }
};
static std::string name(char c) { return std::string(1, c); }
static char sym(const char *n) { return (char)vf_int(n, 'a', 'h'); }
// the rules, over letters
struct Rules {
  char body[8], frame[8], trans[8];
  int nb = 0, nf = 0, nt = 0;
  static bool in(const char *s, int n, char c) { for (int i = 0; i < n; ++i) if (s[i] == c) return true; return false; }
  bool link(char p, char b, char j) {
    if (!in(body, nb, p) || in(body, nb, b) || in(frame, nf, b) || in(trans, nt, j)) return false;
    body[nb++] = b; trans[nt++] = j;
    return true;
  }
  bool sframe(char p, char f, char t) {
    if ((!in(body, nb, p) && !in(frame, nf, p)) || in(body, nb, f) || in(frame, nf, f) || in(trans, nt, t)) return false;
    frame[nf++] = f; trans[nt++] = t;
    return true;
  }
};
struct World {
  Recorder<double> rec;
  Rules rules;
  NamesChecker<double> chk;
  explicit World(char root) : rec(make(root)), chk(rec) { rules.body[rules.nb++] = root; }
  static Recorder<double> make(char root) { Recorder<double> r; r.cfg.galilean_frame = name(root); return r; }
  void step(int kind, char p, char n, char t) {
    const size_t l = rec.links.size(), f = rec.frames.size();
    bool thrown = false;
    if (kind == 0) {
      Link k;
      k.parent_body = name(p); k.new_body = name(n); k.new_joint = name(t); k.joint_type = JointType::Rx;
      try { chk.addLink(k); } catch (const std::runtime_error &) { thrown = true; }
      const bool ok = rules.link(p, n, t);
      vf_assert(thrown != ok, "a link is refused exactly when its parent is unknown or one of its names is taken");
      vf_assert(rec.links.size() == l + (ok ? 1 : 0) && rec.frames.size() == f, "a link is forwarded exactly when it is accepted");
      if (ok) {
        const Link &g = rec.links.back();
        vf_assert(g.parent_body == k.parent_body && g.new_body == k.new_body && g.new_joint == k.new_joint && g.joint_type == k.joint_type, "the link is forwarded as it is");
      }
    } else {
      Frame k;
      k.parent_frame = name(p); k.new_static_frame = name(n); k.new_static_transform = name(t);
      try { chk.addStaticFrame(k); } catch (const std::runtime_error &) { thrown = true; }
      const bool ok = rules.sframe(p, n, t);
      vf_assert(thrown != ok, "a static frame is refused exactly when its parent is unknown or one of its names is taken");
      vf_assert(rec.frames.size() == f + (ok ? 1 : 0) && rec.links.size() == l, "a static frame is forwarded exactly when it is accepted");
      if (ok) {
        const Frame &g = rec.frames.back();
        vf_assert(g.parent_frame == k.parent_frame && g.new_static_frame == k.new_static_frame && g.new_static_transform == k.new_static_transform, "the static frame is forwarded as it is");
      }
    }
  }
};
// two arbitrary additions
VF_B(two) {
  World w(sym("root"));
  for (int i = 0; i < 2; ++i) {
    const int kind = vf_choice("kind", 2);
    const char p = sym("parent"), n = sym("new"), t = sym("transform");
    w.step(kind, p, n, t);
  }
}
// an accepted addition, then any two: root r
VF_B(three) {
  World w('d');
  const int kind = vf_choice("kind", 2);
  w.step(kind, 'd', 'c', 'f');
  w.step(vf_choice("kind2", 2), vf_choice("on", 2) ? 'd' : 'c', 'e', 'e');
  const int k3 = vf_choice("kind3", 2);
  const char p = sym("parent"), n = sym("new"), t = sym("transform");
  w.step(k3, p, n, t);
}
typedef Link::Pose Pose;
static Pose pose(const char *n) {
  Pose h;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) h.matrix()(i, j) = vf_dreal(n, -10, 10);
  return h;
}
static Link::BodyMass mass(const char *n) {
  Link::BodyMass b;
  b.mass = vf_dreal(n, -10, 10);
  for (int i = 0; i < 3; ++i) b.center_of_mass(i) = vf_dreal(n, -10, 10);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) b.rotational_inertia(i, j) = vf_dreal(n, -10, 10);
  return b;
}
template <class A, class B> static void same(const A &a, const B &b, double tol, const char *w) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) vf_close(a.matrix()(i, j), b.matrix()(i, j), tol, w);
}
template <class A, class B> static void sameMass(const A &a, const B &b, double tol, bool inertia, const char *w) {
  vf_close(a.mass, b.mass, tol, w);
  for (int i = 0; i < 3; ++i) vf_close(a.center_of_mass(i), b.center_of_mass(i), tol, w);
  if (inertia) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_close(a.rotational_inertia(i, j), b.rotational_inertia(i, j), tol, w);
}
static JointType type() { const JointType t[] = {JointType::FreeFlyer, JointType::Rx, JointType::Ry, JointType::Rz}; return t[vf_choice("joint type", 4)]; }
VF_R(addLink) {
  Recorder<double> r;
  const bool named = vf_choice("named", 2);
  if (vf_choice("format", 2)) r.cfg.joint_name_format = "j_%1%";
  const bool own = r.cfg.joint_name_format[0] == 'j';
  const Pose h = pose("h");
  const Link::BodyMass m = mass("m");
  const JointType t = type();
  Interface<double> &i = r;
  if (named) i.add("torso", "head", h, t, m, "neck"); else i.add("torso", "head", h, t, m);
  vf_assert(r.links.size() == 1 && r.frames.empty(), "one link is added");
  const Link &l = r.links[0];
  vf_assert(l.parent_body == "torso" && l.new_body == "head" && l.joint_type == t, "names and type of the link");
  vf_assert(l.new_joint == (named ? "neck" : own ? "j_head" : "head_joint"), "the joint takes the given name, or the body's in the configured format");
  same(l.pose_parent_new, h, 0, "pose of the link");
  sameMass(l.body_mass, m, 0, true, "mass of the link");
}
VF_R(addFrame) {
  Recorder<double> r;
  const bool named = vf_choice("named", 2), none = vf_choice("none", 2);
  r.cfg.no_static_frame = none;
  const Pose h = pose("h");
  Interface<double> &i = r;
  if (named) i.add("torso", "camera", h, "mount"); else i.add("torso", "camera", h);
  vf_assert(r.links.empty() && r.frames.size() == (none ? 0 : 1), "one static frame is added, unless they are not wanted");
  if (none) return;
  const Frame &l = r.frames[0];
  vf_assert(l.parent_frame == "torso" && l.new_static_frame == "camera", "names of the frame");
  vf_assert(l.new_static_transform == (named ? "mount" : "camera_joint"), "the transform takes the given name, or the frame's in the configured format");
  same(l.pose_parent_new, h, 0, "pose of the frame");
}
static Link link() {
  Link l;
  l.parent_body = "torso"; l.new_body = "head"; l.new_joint = "neck"; l.joint_type = type();
  l.pose_parent_new = pose("h");
  l.body_mass = mass("m");
  return l;
}
VF_R(decorators) {
  Recorder<double> r;
  r.cfg.galilean_frame = "torso";
  InertiaEraser<double> e(r);
  Decorator<double> d(r);
  NamesChecker<double> n(r);
  vf_assert(&e.config() == &r.cfg && &d.config() == &r.cfg && &n.config() == &r.cfg, "a decorator has the configuration of its target");
  const Link l = link();
  Frame f;
  f.parent_frame = "torso"; f.new_static_frame = "camera"; f.new_static_transform = "mount"; f.pose_parent_new = pose("f");
  const int k = vf_choice("decorator", 3);
  Interface<double> &i = k == 0 ? static_cast<Interface<double> &>(e) : k == 1 ? static_cast<Interface<double> &>(d) : n;
  i.addLink(l);
  i.addStaticFrame(f);
  vf_assert(r.links.size() == 1 && r.frames.size() == 1, "forwarded once");
  const Link &g = r.links[0];
  vf_assert(g.parent_body == "torso" && g.new_body == "head" && g.new_joint == "neck" && g.joint_type == l.joint_type, "names and type are forwarded");
  same(g.pose_parent_new, l.pose_parent_new, 0, "the pose is forwarded");
  sameMass(g.body_mass, l.body_mass, 0, k != 0, "the mass is forwarded");
  if (k == 0) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) vf_close(g.body_mass.rotational_inertia(a, b), 0, 0, "the rotational inertia is erased");
  vf_assert(r.frames[0].parent_frame == "torso" && r.frames[0].new_static_frame == "camera" && r.frames[0].new_static_transform == "mount", "the names of the frame are forwarded");
  same(r.frames[0].pose_parent_new, f.pose_parent_new, 0, "the pose of the frame is forwarded");
}
VF_R(adapter) {
  Recorder<float> r;
  Adapter<double, float> a(r);
  vf_assert(&a.config() == &r.cfg, "an adapter has the configuration of its target");
  const Link l = link();
  Frame f;
  f.parent_frame = "torso"; f.new_static_frame = "camera"; f.new_static_transform = "mount"; f.pose_parent_new = pose("f");
  a.addLink(l);
  a.addStaticFrame(f);
  vf_assert(r.links.size() == 1 && r.frames.size() == 1, "forwarded once");
  const LinkData<float> &g = r.links[0];
  vf_assert(g.parent_body == "torso" && g.new_body == "head" && g.new_joint == "neck" && g.joint_type == l.joint_type, "names and type are kept");
  same(g.pose_parent_new, l.pose_parent_new, 1e-6, "the pose is converted");
  sameMass(g.body_mass, l.body_mass, 1e-6, true, "the mass is converted");
  vf_assert(r.frames[0].parent_frame == "torso" && r.frames[0].new_static_frame == "camera" && r.frames[0].new_static_transform == "mount", "the names of the frame are kept");
  same(r.frames[0].pose_parent_new, f.pose_parent_new, 1e-6, "the pose of the frame is converted");
}
