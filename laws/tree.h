// URDF documents of named shapes: links l0, l1, ... and joints given by parent and child
#ifndef TREE_H
#define TREE_H
#include "doc.h"
#include <vector>
static inline std::string nm(char c, int i) { std::string s(1, c); s += char('0' + i); return s; }
static inline ptree &add_link(ptree &robot, const std::string &n) {
  ptree l;
  l.put("<xmlattr>.name", n);
  return robot.add_child("link", l);
}
static inline ptree &add_joint(ptree &robot, const std::string &n, const std::string &parent, const std::string &child,
                               const char *type = "revolute") {
  ptree j;
  j.put("<xmlattr>.name", n);
  j.put("<xmlattr>.type", type);
  j.put("parent.<xmlattr>.link", parent);
  j.put("child.<xmlattr>.link", child);
  return robot.add_child("joint", j);
}
// the tree of n links where link i > 0 hangs by joint ji from link up[i] < i; the joints come in the document
// in an order chosen by pick: 0 by number, 1 by number or backwards, 2 all orders
struct Tree {
  ptree robot;
  int n, up[6], order[6];
  Tree(int n_, int shuffle = 1) : n(n_) {
    robot.put("<xmlattr>.name", "robot");
    up[0] = -1;
    for (int i = 1; i < n; ++i) up[i] = i == 1 ? 0 : law_pick(i == 2 ? "parent of l2" : i == 3 ? "parent of l3" : "parent of l4", i);
    int m = 0;
    bool back = shuffle == 1 && law_pick("joints in the document", 2);
    for (int i = 1; i < n; ++i) {  // insertion: every permutation once
      int at = back ? 0 : shuffle < 2 || m == 0 ? m : law_pick(i == 2 ? "rank of j2" : i == 3 ? "rank of j3" : "rank of j4", m + 1);
      for (int k = m; k > at; --k) order[k] = order[k - 1];
      order[at] = i;
      ++m;
    }
    for (int i = 0; i < n; ++i) add_link(robot, nm('l', i));
    for (int k = 0; k < n - 1; ++k) add_joint(robot, nm('j', order[k]), nm('l', up[order[k]]), nm('l', order[k]));
  }
  ptree *find(const char *kind, const std::string &n) {
    for (auto &v : robot) if (v.first == kind && v.second.get<std::string>("<xmlattr>.name") == n) return &v.second;
    return nullptr;
  }
  int count(const char *kind) { int r = 0; for (auto &v : robot) r += v.first == kind; return r; }
  bool leaf(int i) const { for (int k = 1; k < n; ++k) if (up[k] == i) return false; return true; }
  bool below(int i, int a) const { for (; i >= 0; i = up[i]) if (i == a) return true; return false; }
};
#endif
