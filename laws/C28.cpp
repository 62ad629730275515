// Traversals and edits of URDF joints: who is visited, in which order, and what an edit leaves alone
#include "tree.h"
#include <sstream>

// what an observer may see of a traversal: names, with ! for the end of a visit
static void reference(const Tree &d, const int *rank, int link, const bool *prune, std::vector<int> &out) {
  for (int r = 0; r < d.n - 1; ++r) {
    int j = rank[r];
    if (d.up[j] != link) continue;
    out.push_back(j);
    if (!prune[j]) reference(d, rank, j, prune, out);
    out.push_back(-j);
  }
}
template <class Base, class Pt> struct Record : Base {
  const bool *prune;
  std::vector<int> seen;
  int of(Pt &pt) { return AL::urdf::name(pt)[1] - '0'; }
  bool discover(Pt &pt) { int j = of(pt); seen.push_back(j); return !prune[j]; }
  void finish(Pt &pt) { seen.push_back(-of(pt)); }
};
typedef Record<JointConstVisitor, const ptree> ConstRecord;
typedef Record<JointVisitor, ptree> MutRecord;
static bool same(const std::vector<int> &a, const std::vector<int> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
  return true;
}
static void traverse(int orders, int n) {
  Tree d(n, orders);
  bool prune[6] = {};
  int p = law_pick("pruned joint", n);
  if (p) prune[p] = true;
  std::vector<int> want;
  reference(d, d.order, 0, prune, want);
  RobotTree t(d.robot);
  const RobotTree &ct = t;
  ConstRecord c; c.prune = prune;
  MutRecord m; m.prune = prune;
  ct.traverse_joints(c);
  t.traverse_joints(m);
  law_true("depth first, siblings in the order of the document", same(c.seen, want));
  law_true("depth first when joints may be changed", same(m.seen, want));
}
LAW law_walk_order() { traverse(1, 4); }
LAW law_t_walk_order() { traverse(2, 4); }
LAW law_t_walk_order_five() { traverse(1, 5); }
// joints whose predicate holds go with everything below them
static void rm_subtrees(int orders) {
  Tree d(4, orders);
  static const int FEW[] = {0, 2, 4, 3, 6};  // j2; j3; j1 and j2; j2 and j3
  bool cut[4] = {}, gone[4] = {};
  int s = orders ? law_pick("joints to cut", 8) : FEW[law_pick("some joints to cut", 5)];
  for (int i = 1; i < 4; ++i) cut[i] = s >> (i - 1) & 1;
  for (int i = 1; i < 4; ++i) for (int k = i; k > 0; k = d.up[k]) gone[i] = gone[i] || cut[k];
  bool none[4] = {};
  std::vector<int> all, want;
  reference(d, d.order, 0, none, all);
  for (int j : all) if (j > 0 && gone[j]) want.push_back(j);
  RobotTree t(d.robot);
  std::vector<std::string> names = removeSubTreeIfJoint(t, [&](const ptree &j) { return cut[AL::urdf::name(j)[1] - '0']; });
  law_true("number of names", names.size() == want.size());
  for (size_t i = 0; i < want.size(); ++i) law_true("names in the order of the traversal", names[i] == nm('j', want[i]));
  int m = 0;
  for (int i = 0; i < 4; ++i) {
    m += !gone[i];
    law_true("links left", bool(d.find("link", nm('l', i))) == !gone[i]);
    law_true("joints left", bool(d.find("joint", nm('j', i))) == (i > 0 && !gone[i]));
  }
  law_true("nothing else", d.count("link") == m && d.count("joint") == m - 1);
  RobotTree u(d.robot);
  law_true("consistent document", u.root_link() == "l0");
}
LAW law_cut_subtrees() { rm_subtrees(0); }
LAW law_t_cut_subtrees_back() { rm_subtrees(1); }
LAW law_t_cut_subtrees() { rm_subtrees(2); }

// types of joints
static const char *const TYPES[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar"};
static std::string type_of(const ptree &j) { return j.get<std::string>("<xmlattr>.type"); }
static void put_extras(ptree &j, int i) {
  const char *const A[] = {"", "a", "b", "c"};
  j.put("axis.<xmlattr>.xyz", vecin(A[i]));
  j.put("limit.<xmlattr>.upper", num(law_in("u", i)));
}
static void check_joint(const ptree &j, int i, int up, const char *type, bool axis) {
  const char *const A[] = {"", "a", "b", "c"};
  law_true("type", type_of(j) == type);
  law_true("axis", j.count("axis") == (axis ? 1 : 0));
  if (axis) { Array3d x = Joint(j).axis(); EQ("axis", x, law_in(A[i], 0), law_in(A[i], 1), law_in(A[i], 2)); }
  law_eq("limit", j.get<double>("limit.<xmlattr>.upper"), law_in("u", i));
  law_true("links", parent_link(j) == nm('l', up) && child_link(j) == nm('l', i));
}
static void edit_type(int n) {
  Tree d(n, 0);
  int k = law_pick("type", 6), i = 1 + law_pick("joint", n - 1), f = law_pick("floating", 2);
  for (int j = 1; j < n; ++j) {
    ptree &pt = *d.find("joint", nm('j', j));
    pt.put("<xmlattr>.type", TYPES[j == i ? k : 0]);
    put_extras(pt, j);
  }
  RobotTree t(d.robot);
  if (f) makeJointFloating(t, nm('j', i)); else makeJointFixed(t, nm('j', i));
  for (int j = 1; j < n; ++j) check_joint(t.joint(nm('j', j)), j, d.up[j], j == i ? f ? "floating" : "fixed" : "revolute", j != i);
}
LAW law_edit_type() { edit_type(3); }
LAW law_t_edit_type() { edit_type(4); }
LAW law_edit_unknown() {
  Tree d(3, 0);
  RobotTree t(d.robot);
  int k = law_pick("what", 3);
  law_throws_iff("unknown joint", true);
  if (k == 0) makeJointFixed(t, "l1"); else if (k == 1) makeJointFloating(t, "j0"); else squashJointMass(t, "j3");
}
static void continuous(int orders) {
  Tree d(4, orders);
  int ty[4];
  const char *const W[] = {"", "type of j1", "type of j2", "type of j3"};
  for (int i = 1; i < 4; ++i) {
    ty[i] = law_pick(W[i], 2);
    ptree &pt = *d.find("joint", nm('j', i));
    pt.put("<xmlattr>.type", ty[i] ? "continuous" : i == 1 ? "revolute" : i == 2 ? "floating" : "prismatic");
    put_extras(pt, i);
  }
  RobotTree t(d.robot);
  bool none[4] = {};
  std::vector<int> all, want;
  reference(d, d.order, 0, none, all);
  for (int j : all) if (j > 0 && ty[j]) want.push_back(j);
  std::vector<std::string> names = makeContinuousJointsFixed(t);
  law_true("number of names", names.size() == want.size());
  for (size_t i = 0; i < want.size(); ++i) law_true("names in the order of the traversal", names[i] == nm('j', want[i]));
  for (int i = 1; i < 4; ++i)
    check_joint(t.joint(nm('j', i)), i, d.up[i], ty[i] ? "fixed" : i == 1 ? "revolute" : i == 2 ? "floating" : "prismatic", !ty[i]);
}
LAW law_edit_continuous() { continuous(0); }
// below and beside a joint of any type
LAW law_edit_continuous_near() {
  Tree d(3, 0);
  int k = law_pick("type of j1", 6);
  for (int i = 1; i < 3; ++i) {
    ptree &pt = *d.find("joint", nm('j', i));
    pt.put("<xmlattr>.type", TYPES[i == 1 ? k : 1]);
    put_extras(pt, i);
  }
  RobotTree t(d.robot);
  std::vector<std::string> names = makeContinuousJointsFixed(t);
  law_true("number of names", names.size() == (k == 1 ? 2u : 1u));
  if (names.empty()) return;
  law_true("names in the order of the traversal", names.back() == "j2" && names.front() == (k == 1 ? "j1" : "j2"));
  for (int i = 1; i < 3; ++i) {
    bool now = i == 2 || k == 1;
    check_joint(t.joint(nm('j', i)), i, d.up[i], now ? "fixed" : TYPES[k], !now);
  }
}
LAW law_t_edit_continuous_back() { continuous(1); }
LAW law_t_edit_continuous() { continuous(2); }
LAW law_edit_name() {
  ptree pt;
  if (law_pick("name given", 2)) pt.put("<xmlattr>.name", "old");
  pt.put("<xmlattr>.type", "fixed");
  put_name(pt, "new");
  law_true("name", AL::urdf::name(pt) == "new" && type_of(pt) == "fixed" && pt.get_child("<xmlattr>").size() == 2);
}
// the printed graph
static void dot(const Tree &d, const int *rank, int link, int depth, std::string &out) {
  for (int r = 0; r < d.n - 1; ++r) {
    int j = rank[r];
    if (d.up[j] != link) continue;
    out += nm('l', link) + " -> " + nm('l', j) + " [label=" + nm('j', j) + "];\n";
    dot(d, rank, j, depth + 1, out);
  }
}
LAW law_walk_dot() {
  Tree d(4, 1);
  RobotTree t(d.robot);
  std::ostringstream os;
  UrdfDotPrinterVisitor vis(os);
  const RobotTree &ct = t;
  ct.traverse_joints(vis);
  std::string want;
  dot(d, d.order, 0, 1, want);
  law_true("one edge per joint", os.str() == want);
}
// file names of meshes and textures; everything else is left alone
static ptree file(const char *name) { ptree r; if (name) r.put("<xmlattr>.filename", name); r.put("<xmlattr>.scale", "s"); return r; }
static bool is(const ptree &pt, const char *name) {
  auto f = pt.get_optional<std::string>("<xmlattr>.filename");
  return bool(f) == bool(name) && (!name || *f == name) && pt.get<std::string>("<xmlattr>.scale") == "s";
}
static void filenames(int nm_, int nv, int nc) {
  ptree robot;
  int t0 = law_pick("texture of materials: none, without file, with file", 3);
  int g = law_pick("geometry: box, mesh, mesh without file", 3);
  robot.put("<xmlattr>.filename", "r");
  ptree material, geometry;
  material.put("<xmlattr>.filename", "m");
  if (t0) material.add_child("texture", file(t0 == 2 ? "t" : nullptr));
  if (g == 0) geometry.put_child("box", file("b")); else geometry.add_child("mesh", file(g == 1 ? "g" : nullptr));
  for (int i = 0; i < nm_; ++i) robot.add_child("material", material);
  for (int l = 0; l < 2; ++l) {
    ptree &link = add_link(robot, nm('l', l));
    for (int i = 0; i < nv; ++i) {
      ptree v;
      v.add_child("geometry", geometry);
      if (l == 0) v.add_child("material", material);
      link.add_child("visual", v);
    }
    for (int i = 0; i < nc; ++i) {
      ptree v;
      if (l == 0) v.add_child("geometry", geometry);
      link.add_child("collision", v);
    }
  }
  robot::transform_filenames(robot, [](std::string in) { return in + "!"; });
  law_true("file of the robot element", robot.get<std::string>("<xmlattr>.filename") == "r");
  int m = 0, v = 0, c = 0, l = 0;
  auto texture = [&](const ptree &pt) {
    law_true("material", pt.get<std::string>("<xmlattr>.filename") == "m" && pt.count("texture") == (t0 ? 1 : 0));
    if (t0) law_true("texture", is(pt.get_child("texture"), t0 == 2 ? "t!" : nullptr));
  };
  auto shape = [&](const ptree &pt) {
    if (g == 0) law_true("box", pt.size() == 1 && is(pt.get_child("box"), "b"));
    else law_true("mesh", pt.size() == 1 && is(pt.get_child("mesh"), g == 1 ? "g!" : nullptr));
  };
  for (auto &e : robot) {
    if (e.first == "material") { ++m; texture(e.second); }
    if (e.first != "link") continue;
    for (auto &x : e.second) {
      if (x.first == "visual") {
        ++v;
        shape(x.second.get_child("geometry"));
        if (l == 0) texture(x.second.get_child("material"));
      }
      if (x.first == "collision") { ++c; if (l == 0) shape(x.second.get_child("geometry")); else law_true("collision", x.second.empty()); }
    }
    ++l;
  }
  law_true("elements", m == nm_ && v == 2 * nv && c == 2 * nc && l == 2);
}
LAW law_edit_filenames() {
  int k = law_pick("materials of the robot, visuals, collisions", 5);
  filenames(k % 3, k == 0 ? 2 : k & 1, k == 1 ? 2 : k == 4 ? 0 : 1);
}
LAW law_t_edit_filenames() {
  int m = law_pick("materials of the robot", 3), v = law_pick("visuals", 3);
  filenames(m, v, law_pick("collisions", 3));
}
