// URDF trees: exactly the consistent documents are accepted; queries; edits of the tree
#include "tree.h"

// three links and two joints between any of them (or a missing link)
LAW law_tree_accepted() {
  const char *const L[] = {"a", "b", "c", "missing"};
  ptree robot;
  for (int i = 0; i < 3; ++i) add_link(robot, L[i]);
  int p[2], c[2];
  p[0] = law_pick("parent of j0", 4); c[0] = law_pick("child of j0", 4);
  p[1] = law_pick("parent of j1", 4); c[1] = law_pick("child of j1", 4);
  for (int i = 0; i < 2; ++i) add_joint(robot, nm('j', i), L[p[i]], L[c[i]]);
  bool ok = p[0] < 3 && c[0] < 3 && p[1] < 3 && c[1] < 3 && c[0] != c[1];
  if (ok) {
    int root = 3 - c[0] - c[1];
    for (int i = 0; i < 2; ++i) {  // every child reaches the root
      int l = c[i];
      for (int k = 0; k < 3 && l != root; ++k) l = l == c[0] ? p[0] : p[1];
      ok = ok && l == root;
    }
  }
  law_throws_iff("inconsistent tree", !ok);
  RobotTree t(robot);
  law_true("root", t.root_link() == L[3 - c[0] - c[1]]);
}
// links and joints have separate name spaces
LAW law_tree_name_spaces() {
  ptree robot;
  int k = law_pick("document", 4);
  const char *const L[] = {"a", "b", "c"};
  const char *const J[] = {"b", "c"};
  for (int i = 0; i < 3; ++i) add_link(robot, L[i]);
  for (int i = 0; i < 2; ++i) add_joint(robot, k == 0 ? J[i] : nm('j', i), k == 1 && i == 1 ? "j0" : L[i], k == 2 && i == 1 ? "j1" : L[i + 1]);
  if (k == 3) robot.put("material.<xmlattr>.name", "d"), add_joint(robot, "j2", "c", "d");
  law_throws_iff("name of a joint or material for a link", k > 0);
  RobotTree t(robot);
  law_true("root", t.root_link() == "a");
  for (int i = 0; i < 2; ++i) law_true("the joint and its child of the same name", child_link(t.joint(J[i])) == J[i] && t.link(J[i]).get<std::string>("<xmlattr>.name") == J[i]);
}
// no link; duplicate links; duplicate joints; empty document with one link
LAW law_tree_names() {
  ptree robot;
  int k = law_pick("document", 6);
  if (k >= 1) add_link(robot, "a");
  if (k >= 2) add_link(robot, k == 2 ? "a" : "b");
  if (k >= 4) { add_link(robot, "c"); add_joint(robot, "j", "a", "b"); add_joint(robot, k == 4 ? "j" : "k", "b", "c"); }
  law_throws_iff("no link, duplicate names, several roots", k == 0 || k == 2 || k == 3 || k == 4);
  RobotTree t(robot);
  law_true("root", t.root_link() == "a");
}
// a missing name, parent or child
LAW law_tree_missing_part() {
  ptree robot;
  int k = law_pick("missing", 5);
  ptree &a = add_link(robot, "a"), &b = add_link(robot, "b");
  ptree &j = add_joint(robot, "j", "a", "b");
  (void)a;
  if (k == 0) b.erase("<xmlattr>");
  if (k == 1) j.erase("<xmlattr>");
  if (k == 2) j.erase("parent");
  if (k == 3) j.erase("child");
  law_throws_iff("missing part", k < 4);
  RobotTree t(robot);
  law_true("root", t.root_link() == "a");
}
// three joints mimicking each other or a missing joint
LAW law_tree_mimic() {
  ptree robot;
  const char *const L[] = {"a", "b", "c", "d"};
  const char *const J[] = {"j0", "j1", "j2"};
  const char *const NO[] = {"missing", "b", ""};  // no joint has the name of a link or no name
  int m[3];
  for (int i = 0; i < 4; ++i) add_link(robot, L[i]);
  for (int i = 0; i < 3; ++i) {
    m[i] = law_pick(i == 0 ? "j0 mimics" : i == 1 ? "j1 mimics" : "j2 mimics", 5) - 1;
    ptree &j = add_joint(robot, J[i], L[i], L[i + 1]);
    if (m[i] >= 0) j.put("mimic.<xmlattr>.joint", m[i] == 3 ? NO[i] : J[m[i]]);
  }
  bool ok = true, flat = true;
  for (int i = 0; i < 3; ++i) {
    if (m[i] == 3) ok = false;
    int k = i, n = 0;
    while (n < 3 && k >= 0 && k < 3) { k = m[k]; ++n; }
    if (n == 3 && k >= 0) ok = false;
    if (m[i] >= 0 && m[i] < 3 && m[m[i]] >= 0) flat = false;
  }
  law_throws_iff("mimic of itself, in a loop or of a missing joint", !ok);
  RobotTree t(robot);
  law_true("flat", t.is_mimic_tree_flat() == flat);
}
// queries and removal of joints, on every tree of four links in every document order
static void same_tree(const char *tag, RobotTree &t, Tree &d, const bool *gone, int root) {
  int m = 0;
  for (int i = 0; i < d.n; ++i) m += !gone[i];
  law_true(tag, d.count("link") == m && d.count("joint") == m - 1 && t.root_link() == nm('l', root));
  for (int i = 0; i < d.n; ++i) {
    ptree *l = d.find("link", nm('l', i));
    law_true(tag, bool(l) == !gone[i]);
    if (l) law_true(tag, &t.link(nm('l', i)) == l);
    ptree *j = d.find("joint", nm('j', i));
    law_true(tag, bool(j) == (!gone[i] && i != root));
    if (j) law_true(tag, &t.joint(nm('j', i)) == j && parent_link(*j) == nm('l', d.up[i]) && child_link(*j) == nm('l', i));
  }
}
static void queries(int orders) {
  Tree d(4, orders);
  RobotTree t(d.robot);
  bool gone[4] = {};
  same_tree("indexed", t, d, gone, 0);
}
LAW law_tree_queries() { queries(1); }
LAW law_t_tree_queries() { queries(2); }
LAW law_tree_unknown() {
  Tree d(3, 0);
  RobotTree t(d.robot);
  const RobotTree &ct = t;
  int k = law_pick("what", 5);
  law_throws_iff("unknown name", true);
  if (k == 0) t.link("l3"); else if (k == 1) t.joint("l1"); else if (k == 2) ct.link("j1"); else if (k == 3) ct.joint("j0"); else t.rm_leaf_joint("l2");
}
static void rm_root(int orders) {
  Tree d(4, orders);
  RobotTree t(d.robot);
  int c = 0, m = 0;
  for (int i = 1; i < 4; ++i) if (d.up[i] == 0) { c = i; ++m; }
  law_throws_iff("several root joints", m != 1);
  t.rm_root_joint();
  bool gone[4] = {true};
  d.up[c] = -1;
  same_tree("root removed", t, d, gone, c);
}
LAW law_tree_rm_root() { rm_root(1); }
LAW law_t_tree_rm_root() { rm_root(2); }
LAW law_tree_rm_root_last() {
  ptree robot;
  add_link(robot, "a");
  RobotTree t(robot);
  law_throws_iff("no joint", true);
  t.rm_root_joint();
}
static void rm_leaf(int orders) {
  Tree d(4, orders);
  RobotTree t(d.robot);
  int i = 1 + law_pick("removed joint", 3);
  law_throws_iff("not a leaf", !d.leaf(i));
  t.rm_leaf_joint(nm('j', i));
  bool gone[4] = {};
  gone[i] = true;
  same_tree("leaf removed", t, d, gone, 0);
}
LAW law_tree_rm_leaf() { rm_leaf(1); }
LAW law_t_tree_rm_leaf() { rm_leaf(2); }
// removals one after the other, then a document read again
LAW law_tree_rm_sequence() {
  Tree d(4, 0);
  bool gone[4] = {};
  RobotTree t(d.robot);
  int root = 0;
  for (int s = 0; s < 3; ++s) {
    int i = 3, m = 0, c = 0;  // joints only hang from links of smaller number
    for (int k = 1; k < 4; ++k) if (!gone[k] && k != root && d.up[k] == root) { ++m; c = k; }
    if (m == 1 && law_pick(s == 0 ? "first from the root" : s == 1 ? "second from the root" : "third from the root", 2)) {
      t.rm_root_joint();
      gone[root] = true;
      root = c;
    } else {
      while (i > 0 && (gone[i] || i == root)) --i;
      if (i <= 0) break;
      t.rm_leaf_joint(nm('j', i));
      gone[i] = true;
    }
    same_tree("after a removal", t, d, gone, root);
  }
  RobotTree u(d.robot);
  same_tree("read again", u, d, gone, root);
}
