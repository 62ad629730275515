// Re-rooting a tree and moving the root frame describe the same physical system
#include "tree.h"

// a pose with opaque numbers: k & 1 no translation, k & 2 no rotation
static Pose pose(const char *x, const char *r, int k) { return Pose(arr(x, k & 1 ? 3 : 0), arr(r, k & 2 ? 3 : 0)); }
static void put_origin(ptree &pt, const Pose &p) { if (auto o = p.to_ptree()) pt.put_child("origin", *o); }
static Pose origin(const ptree &pt) { return Pose::from_ptree(pt.get_child_optional("origin")); }
static void SAME(const char *t, const Pose &a, const Pose &b) { EQ(t, a.xyz(), b.xyz()); EQ(t, a.rpy(), b.rpy()); }
// the frame of the root link is moved by p: what was at q is at p^-1 q
static Pose moved(const Pose &p, const Pose &q) { return p.inverse() * q; }
LAW law_frame_transport() {
  int kp = law_pick("pose (1: no translation, 2: no rotation)", 4);
  int ko = law_pick("origins", 5);  // 4: the pose itself
  Pose p = pose("p", "q", kp), o[6];
  if (!(kp & 1)) law_assume(p.inverse().xyz()[0] != 0);
  if (!(kp & 2)) law_assume(p.inverse().rpy()[0] != 0);
  const char *const X[] = {"x0", "x1", "x2", "x3", "x4", "x5"}, *const R[] = {"r0", "r1", "r2", "r3", "r4", "r5"};
  ptree robot;
  for (int i = 0; i < 4; ++i) add_link(robot, nm('l', i));
  for (int i = 0; i < 6; ++i) {
    o[i] = ko == 4 ? p : pose(X[i], R[i], ko);
    if (ko < 4 && i < 5) {
      if (!(kp & 1) && !(ko & 1)) law_assume(o[i].xyz()[0] != p.xyz()[0]);
      if (!(kp & 2) && !(ko & 2)) law_assume(o[i].rpy()[0] != p.rpy()[0]);
      Pose m = moved(p, o[i]);
      if (!(kp & 1) || !(ko & 1)) law_assume(m.xyz()[0] != 0);
      if (!(kp & 2) || !(ko & 2)) law_assume(m.rpy()[0] != 0);
    }
  }
  put_origin(add_joint(robot, "j1", "l0", "l1"), o[0]);
  put_origin(add_joint(robot, "j2", "l0", "l2"), o[1]);
  put_origin(add_joint(robot, "j3", "l1", "l3"), o[5]);
  RobotTree t(robot);
  const char *const E[] = {"inertial", "visual", "collision"};
  for (int i = 0; i < 3; ++i) {
    ptree e;
    put_origin(e, o[2 + i]);
    t.link("l0").add_child(E[i], e);
    put_origin(e, o[5]);
    t.link("l1").add_child(E[i], e);
  }
  ptree e;
  t.link("l0").add_child("visual", e);  // no origin at all
  t.transport_root_link_frame(p);
  SAME("joint of the root", origin(t.joint("j1")), moved(p, o[0]));
  SAME("other joint of the root", origin(t.joint("j2")), moved(p, o[1]));
  SAME("joint further down", origin(t.joint("j3")), o[5]);
  for (int i = 0; i < 3; ++i) {
    SAME("element of the root link", origin(t.link("l0").get_child(E[i])), moved(p, o[2 + i]));
    SAME("element of another link", origin(t.link("l1").get_child(E[i])), o[5]);
    law_true("count", t.link("l0").count(E[i]) == (i == 1 ? 2 : 1));
  }
  for (auto &v : t.link("l0")) if (v.first == "visual") e = v.second;
  SAME("last visual", origin(e), p.inverse());
  law_true("root", t.root_link() == "l0");
}
// chain l0 -j1- l1 -j2- l2 with l3 below l0 and l4 below l1; the new root is l1 or l2
static const char *const TYPES[] = {"revolute", "fixed", "continuous", "prismatic", "floating", "planar"};
// the axis of joint pt is a[0..2] (k: 0 not given, 1 minus the default, 2 any other)
static void put_axis(ptree &pt, int k, const char *a) {
  if (k == 1) pt.put("axis.<xmlattr>.xyz", num(-1, 0, 0));
  if (k == 2) {
    law_assume(law_in(a, 0) != -1);
    pt.put("axis.<xmlattr>.xyz", vecin(a));
  }
}
static void check_axis(const char *t, const ptree &pt, int k, const char *a, bool flipped) {
  Array3d x = Joint(pt).axis();
  double s = flipped ? -1 : 1;
  if (k == 2) EQ(t, x, s * law_in(a, 0), s * law_in(a, 1), s * law_in(a, 2));
  else EQ(t, x, k == 1 ? -s : s, 0, 0);
}
static void nonzero(const Pose &p) {
  law_assume(p.xyz()[0] != 0);
  law_assume(p.rpy()[0] != 0);
}
static void reroot(int to, int k1, int k2, int t1, int t2, int a1, int a2) {
  ptree robot;
  for (int i = 0; i < 5; ++i) add_link(robot, nm('l', i));
  Pose o1 = pose("x1", "r1", k1), o2 = pose("x2", "r2", k2), o3 = pose("x3", "r3", 0), o4 = pose("x4", "r4", 0), v = pose("y", "s", 0);
  ptree &j1 = add_joint(robot, "j1", "l0", "l1", TYPES[t1]);
  put_origin(j1, o1); put_axis(j1, a1, "a");
  ptree &j2 = add_joint(robot, "j2", "l1", "l2", TYPES[t2]);
  put_origin(j2, o2); put_axis(j2, a2, "b");
  ptree &j3 = add_joint(robot, "j3", "l0", "l3");
  put_origin(j3, o3); put_axis(j3, 2, "c");
  ptree &j4 = add_joint(robot, "j4", "l1", "l4");
  put_origin(j4, o4);
  j1.put("limit.<xmlattr>.upper", num(law_in("u", 0)));
  RobotTree t(robot);
  for (int i = 0; i < 3; ++i) { ptree e; put_origin(e, v); t.link(nm('l', i)).add_child("visual", e); }
  if (k1 != 3) {
    law_assume(o1.xyz()[0] != o3.xyz()[0]);
    law_assume(o1.xyz()[0] != v.xyz()[0]);
    Pose a = moved(o1, o3), b = moved(o1, v);
    nonzero(a);
    nonzero(b);
  }
  if (to == 2 && k2 != 3) {
    law_assume(o2.xyz()[0] != o4.xyz()[0]);
    law_assume(o2.xyz()[0] != v.xyz()[0]);
    Pose a = moved(o2, o4), b = moved(o2, v), c = o2.inverse();
    nonzero(a);
    nonzero(b);
    if (!(k2 & 1)) law_assume(c.xyz()[0] != 0);
    if (!(k2 & 2)) law_assume(c.rpy()[0] != 0);
  }
  law_throws_iff("joint of several degrees of freedom on the path", t1 > 3 || (to == 2 && t2 > 3));
  t.define_as_root_link(nm('l', to));
  law_true("root", t.root_link() == nm('l', to));
  // where the frames of l0 and l1 went: onto the joint that they now hang from
  Pose d0 = o1, d1 = to == 2 ? o2 : Pose();
  law_true("j1 reversed", parent_link(t.joint("j1")) == "l1" && child_link(t.joint("j1")) == "l0");
  SAME("origin of j1", origin(t.joint("j1")), to == 2 && k2 != 3 ? d1.inverse() : Pose());
  if (t1 != 1) check_axis("axis of j1", t.joint("j1"), a1, "a", true);
  law_eq("limit of j1", Joint(t.joint("j1")).limit_lower_upper()->second, law_in("u", 0));
  law_true("type of j1", Joint(t.joint("j1")).type() == Joint::Type(t1 == 0 ? 0 : t1 == 1 ? 3 : t1 == 2 ? 1 : 2));
  law_true("j2", parent_link(t.joint("j2")) == (to == 2 ? "l2" : "l1") && child_link(t.joint("j2")) == (to == 2 ? "l1" : "l2"));
  SAME("origin of j2", origin(t.joint("j2")), to == 2 ? Pose() : o2);
  if (t2 != 1) check_axis("axis of j2", t.joint("j2"), a2, "b", to == 2);
  SAME("origin of j3", origin(t.joint("j3")), k1 == 3 ? o3 : moved(d0, o3));
  law_true("j3", parent_link(t.joint("j3")) == "l0" && child_link(t.joint("j3")) == "l3");
  check_axis("axis of j3", t.joint("j3"), 2, "c", false);
  SAME("origin of j4", origin(t.joint("j4")), to == 2 && k2 != 3 ? moved(d1, o4) : o4);
  SAME("visual of l0", origin(t.link("l0").get_child("visual")), k1 == 3 ? v : moved(d0, v));
  SAME("visual of l1", origin(t.link("l1").get_child("visual")), to == 2 && k2 != 3 ? moved(d1, v) : v);
  SAME("visual of l2", origin(t.link("l2").get_child("visual")), v);
  RobotTree u(robot);
  law_true("consistent document", u.root_link() == nm('l', to));
}
LAW law_frame_reroot_origins() {
  int k = law_pick("origins of j1 and j2, new root", 12);
  if (k < 4) reroot(1, k, k ^ 1, 0, 0, 0, 0);
  else reroot(2, (k - 4) & 3, k < 8 ? 0 : 3 - ((k - 4) & 3), 0, 0, 0, 0);
}
LAW law_t_frame_reroot_origins() {
  int to = 1 + law_pick("new root", 2);
  reroot(to, law_pick("origin of j1", 4), law_pick("origin of j2", 4), 0, 0, 0, 0);
}
LAW law_frame_reroot_types() {
  int k = law_pick("types of j1 and j2, new root", 18);
  if (k < 6) reroot(1, 0, 1, k, 5, 0, 2);
  else if (k < 12) reroot(2, 0, 1, k - 6, 2, 0, 2);
  else reroot(2, 0, 1, 0, k - 12, 0, 2);
}
LAW law_t_frame_reroot_types() {
  int to = 1 + law_pick("new root", 2);
  reroot(to, 0, 1, law_pick("type of j1", 6), law_pick("type of j2", 6), 0, 2);
}
LAW law_frame_reroot_axes() {
  int to = 1 + law_pick("new root", 2);
  reroot(to, 1, 2, 2, 3, law_pick("axis of j1", 3), law_pick("axis of j2", 3));
}
