// SRC: src/scenegraph/urdf.cpp
// MOCK: tree
// DEFS: BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
// BOUND: files of three links and up to three joints with every equality pattern of the names they use, in every order (consistency rules); every tree of four links with its joints in file or reverse order (traversal, removal, type changes)
// ASSUME: the text form of a number is replaced by a token which stands for its value (boost's number parsing and printing are not part of the encoding)
#include "vf.h"
#include <almath/scenegraph/urdf.h>
#include <stdexcept>
using namespace AL::urdf;
static std::string str(char c) { return std::string(1, c); }
static bool maybe(const char *n) { return vf_choice(n, 2) != 0; }
template <class E, class F> static bool throws(F f) { try { f(); } catch (const E &) { return true; } return false; }
static void addLink(ptree &r, char n) { ptree p; p.put("<xmlattr>.name", str(n)); r.add_child("link", p); }
static void addJoint(ptree &r, char n, char up, char down, const char *type = "revolute", char mimic = 0) {
  ptree p;
  p.put("<xmlattr>.name", str(n));
  p.put("<xmlattr>.type", std::string(type));
  p.put("parent.<xmlattr>.link", str(up));
  p.put("child.<xmlattr>.link", str(down));
  if (mimic) p.put("mimic.<xmlattr>.joint", str(mimic));
  r.add_child("joint", p);
}
static bool refused(ptree &r) { return throws<std::runtime_error>([&] { RobotTree t(r); }); }
VF_B(links) {
  ptree r;
  const int n = vf_choice("links", 3);
  char c[3];
  for (int i = 0; i < n; ++i) { c[i] = (char)vf_int("name", 'a', 'd'); addLink(r, c[i]); }
  bool dup = false;
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (c[i] == c[j]) dup = true;
  vf_assert(refused(r) == (n != 1 || dup), "without joint, there must be a single link");
}
// three links a, b, c; joints over any link names
static bool tree(const char *up, const char *down, int n) {
  for (int i = 0; i < n; ++i) if (up[i] > 'c' || down[i] > 'c') return false;
  if (n != 2) return false;
  if (down[0] == down[1]) return false;
  // the root is the link without parent: both others must lead to it
  char root = 'a';
  while (root == down[0] || root == down[1]) ++root;
  for (int i = 0; i < 2; ++i) {
    char l = down[i];
    for (int k = 0; k < 3 && l != root; ++k) l = l == down[0] ? up[0] : up[1];
    if (l != root) return false;
  }
  return true;
}
VF_B(joints) {
  const bool late = maybe("joints first");
  ptree r;
  if (!late) for (char l = 'a'; l <= 'c'; ++l) addLink(r, l);
  char up[2], down[2];
  for (int i = 0; i < 2; ++i) { up[i] = (char)vf_int("parent", 'a', 'd'); down[i] = (char)vf_int("child", 'a', 'd'); addJoint(r, 'x' + i, up[i], down[i]); }
  if (late) for (char l = 'a'; l <= 'c'; ++l) addLink(r, l);
  const bool ok = tree(up, down, 2);
  bool thrown = false;
  try {
    RobotTree t(r);
    vf_assert(t.root_link()[0] != down[0] && t.root_link()[0] != down[1], "the root is the link without parent");
  } catch (const std::runtime_error &) { thrown = true; }
  vf_assert(thrown != ok, "joints are accepted exactly when they join all the links in a tree");
}
VF_B(fewJoints) {
  const int n = vf_choice("joints", 2) * 3;     // none, or one too many
  ptree r;
  for (char l = 'a'; l <= 'c'; ++l) addLink(r, l);
  if (n) {
    char up[3], down[3];
    for (int i = 0; i < n; ++i) { up[i] = (char)vf_int("parent", 'a', 'c'); down[i] = i == 2 ? (char)vf_int("child", 'a', 'c') : (char)('a' + i); addJoint(r, 'x' + i, up[i], down[i]); }
  }
  vf_assert(refused(r), "a tree of three links has two joints");
}
VF_B(jointNames) {
  ptree r;
  for (char l = 'a'; l <= 'c'; ++l) addLink(r, l);
  const char x = (char)vf_int("name", 'a', 'z'), y = (char)vf_int("name", 'a', 'z');
  addJoint(r, x, 'a', 'b');
  addJoint(r, y, 'b', 'c');
  vf_assert(refused(r) == (x == y), "joint names are unique");
}
// three joints x, y, z; each may mimic any name
VF_B(mimics) {
  ptree r;
  for (char l = 'a'; l <= 'd'; ++l) addLink(r, l);
  const char name[] = {'x', 'y', 'z'};
  char m[3];
  for (int i = 0; i < 3; ++i) {
    m[i] = maybe("mimics") ? (char)vf_int("source", 'w', 'z') : (char)0;
    addJoint(r, name[i], 'a' + i, 'b' + i, "revolute", m[i]);
  }
  bool ok = true, flat = true;
  for (int i = 0; i < 3; ++i) {
    int j = i, k = 0;
    while (k < 4 && m[j]) {
      if (m[j] < 'x') { ok = false; break; }      // mimics nothing that exists
      j = m[j] - 'x';
      ++k;
    }
    if (k == 4) ok = false;                        // went round a loop
    if (k > 1) flat = false;
  }
  bool thrown = false, f = false;
  try { RobotTree t(r); f = t.is_mimic_tree_flat(); } catch (const std::runtime_error &) { thrown = true; }
  vf_assert(thrown != ok, "mimics are refused exactly when a source does not exist or there is a loop");
  if (ok) vf_assert(f == flat, "mimics are flat when no source mimics another joint");
}
// ---- every tree of four links a (root) to d; the joint on link k is named by the capital of the link
struct Tree {
  ptree r;
  int up[4];
  int order[3];
  int type[4];
  explicit Tree(int types = 1) {
    up[0] = -1; up[1] = 0; up[2] = vf_choice("up2", 2); up[3] = vf_choice("up3", 3);
    const bool rev = maybe("reverse");
    for (int i = 0; i < 3; ++i) order[i] = rev ? 3 - i : 1 + i;
    const char *t[] = {"revolute", "continuous", "fixed", "prismatic"};
    for (int k = 1; k < 4; ++k) type[k] = types > 1 ? vf_choice("type", types) : 0;
    for (char l = 'a'; l <= 'd'; ++l) addLink(r, l);
    for (int i = 0; i < 3; ++i) {
      const int k = order[i];
      addJoint(r, 'A' + k, 'a' + up[k], 'a' + k, t[type[k]]);
      if (type[k] != 2) std::prev(r.end())->second.put("axis.<xmlattr>.xyz", "0 0 1");
    }
    r.add_child("other", ptree());
  }
  bool leaf(int k) const { for (int i = 1; i < 4; ++i) if (up[i] == k) return false; return true; }
  bool under(int k, int a) const { while (k != -1) { if (k == a) return true; k = up[k]; } return false; }
  // expected walk: discoveries in capitals, ends in small letters
  void walk(int l, int cut, std::string &s) const {
    for (int i = 0; i < 3; ++i) {
      const int k = order[i];
      if (up[k] != l) continue;
      s += (char)('A' + k);
      if (k != cut) walk(k, cut, s);
      s += (char)('a' + k);
    }
  }
};
struct Const : public JointConstVisitor {
  std::string s; char cut;
  bool discover(const ptree &j) { s += name(j); return name(j)[0] != cut; }
  void finish(const ptree &j) { s += (char)(name(j)[0] + 32); }
};
struct Var : public JointVisitor {
  std::string s; char cut;
  bool discover(ptree &j) { s += name(j); return name(j)[0] != cut; }
  void finish(ptree &j) { s += (char)(name(j)[0] + 32); }
};
VF_B(traverse) {
  Tree t;
  const int cut = vf_choice("cut", 4);
  RobotTree p(t.r);
  vf_assert(p.root_link() == "a", "root link");
  std::string w;
  t.walk(0, cut, w);
  Const c; c.cut = 'A' + cut;
  Var v; v.cut = 'A' + cut;
  const RobotTree &q = p;
  q.traverse_joints(c);
  p.traverse_joints(v);
  vf_assert(c.s == w && v.s == w, "joints are discovered from the root, depth first, siblings in file order; those under a joint whose discovery returns false are skipped");
  for (int k = 0; k < 4; ++k) {
    vf_assert(name(p.link(str('a' + k))) == str('a' + k) && name(q.link(str('a' + k))) == str('a' + k), "a link is found by its name");
    if (k) vf_assert(name(p.joint(str('A' + k))) == str('A' + k) && name(q.joint(str('A' + k))) == str('A' + k), "a joint is found by its name");
  }
  vf_assert(throws<std::out_of_range>([&] { p.link("e"); }) && throws<std::out_of_range>([&] { q.link("A"); }) && throws<std::out_of_range>([&] { p.joint("A"); }) && throws<std::out_of_range>([&] { q.joint("b"); }), "an unknown name is refused");
}
// the file has these links and joints and nothing else, and reads as the same tree
static void left(const Tree &t, RobotTree &p, const bool *gone, int root, const char *w) {
  unsigned n = 0;
  for (int k = 0; k < 4; ++k) {
    const bool l = !gone[k], j = k && !gone[k] && k != root;
    n += l + j;
    vf_assert(throws<std::out_of_range>([&] { p.link(str('a' + k)); }) == !l, w);
    vf_assert(throws<std::out_of_range>([&] { p.joint(str('A' + k)); }) == !j, w);
    if (j) vf_assert(parent_link(p.joint(str('A' + k))) == str('a' + t.up[k]) && child_link(p.joint(str('A' + k))) == str('a' + k), w);
  }
  vf_assert(t.r.size() == n + 1 && t.r.count("other") == 1, w);
  vf_assert(p.root_link() == str('a' + root), w);
  Const c, d;
  c.cut = d.cut = 0;
  p.traverse_joints(c);
  ptree copy = t.r;
  RobotTree q(copy);
  q.traverse_joints(d);
  vf_assert(c.s == d.s && q.root_link() == p.root_link(), "the edited tree is the one of the edited file");
}
VF_B(rmLeaf) {
  Tree t;
  RobotTree p(t.r);
  const int k = 1 + vf_choice("joint", 3);
  const bool thrown = throws<std::runtime_error>([&] { p.rm_leaf_joint(str('A' + k)); });
  vf_assert(thrown == !t.leaf(k), "only leaf joints are removed");
  bool gone[4] = {false, false, false, false};
  gone[k] = !thrown;
  left(t, p, gone, 0, "removing a leaf joint removes it and its link, and nothing else");
  vf_assert(throws<std::out_of_range>([&] { p.rm_leaf_joint("z"); }), "an unknown joint is not removed");
}
VF_B(rmRoot) {
  Tree t;
  RobotTree p(t.r);
  int n = 0, k = 0;
  for (int i = 1; i < 4; ++i) if (t.up[i] == 0) { ++n; k = i; }
  const bool thrown = throws<std::runtime_error>([&] { p.rm_root_joint(); });
  vf_assert(thrown == (n != 1), "the root joint is removed when there is only one");
  bool gone[4] = {!thrown, false, false, false};
  left(t, p, gone, thrown ? 0 : k, "removing the root joint removes it and the root link, and nothing else");
}
VF_B(rmSubTree) {
  Tree t;
  RobotTree p(t.r);
  bool mark[4] = {false, false, false, false}, gone[4];
  for (int k = 1; k < 4; ++k) mark[k] = maybe("mark");
  const std::vector<std::string> names = removeSubTreeIfJoint(p, [&](const ptree &j) { return mark[name(j)[0] - 'A']; });
  std::string w, e, g;
  t.walk(0, 0, w);
  for (int k = 0; k < 4; ++k) { gone[k] = false; for (int i = 1; i < 4; ++i) if (mark[i] && t.under(k, i)) gone[k] = true; }
  for (char c : w) if (c < 'a' && gone[c - 'A']) e += c;
  for (const std::string &s : names) g += s;
  vf_assert(e == g, "the names of the removed joints are returned, parents first");
  left(t, p, gone, 0, "the marked joints are removed with all that is under them, and nothing else");
}
static void types(Tree &t, RobotTree &p, const bool *fixed, const char *w) {
  for (int k = 1; k < 4; ++k) {
    const char *n[] = {"revolute", "continuous", "fixed", "prismatic"};
    const ptree &j = p.joint(str('A' + k));
    vf_assert(j.get<std::string>("<xmlattr>.type") == (fixed[k] ? "fixed" : n[t.type[k]]), w);
    vf_assert(!!j.get_child_optional("axis") == (!fixed[k] && t.type[k] != 2), w);
  }
}
VF_B(continuous) {
  Tree t(3);
  RobotTree p(t.r);
  const std::vector<std::string> names = makeContinuousJointsFixed(p);
  bool fixed[4];
  std::string w, e, g;
  t.walk(0, 0, w);
  for (int k = 1; k < 4; ++k) fixed[k] = t.type[k] == 1 || t.type[k] == 2;
  for (char c : w) if (c < 'a' && t.type[c - 'A'] == 1) e += c;
  for (const std::string &s : names) g += s;
  vf_assert(e == g, "the names of the joints made fixed are returned");
  types(t, p, fixed, "continuous joints are made fixed and lose their axis, others are kept");
}
VF_B(fix) {
  Tree t;
  RobotTree p(t.r);
  const int k = 1 + vf_choice("joint", 3), f = vf_choice("floating", 2);
  if (f) makeJointFloating(p, str('A' + k)); else makeJointFixed(p, str('A' + k));
  const ptree &j = p.joint(str('A' + k));
  vf_assert(Joint(j).type() == (f ? Joint::floating : Joint::fixed) && !j.get_child_optional("axis"), "the joint gets the type and loses its axis");
  bool gone[4] = {false, false, false, false}, fixed[4] = {false, false, false, false};
  left(t, p, gone, 0, "the tree is kept");
  if (!f) { fixed[k] = true; types(t, p, fixed, "the other joints are kept"); }
}
