// Poses which are the same motion with different numbers: angles a full turn apart
#include "tree.h"

LAW law_turn_transport() {
  int k = law_pick("elements: 0 joint, 1 visual, 2 collision, 3 inertial", 4);
  int n = law_pick("axis", 3);
  int h = law_pick("angle, quarters of a turn", 5) - 2;
  if (h == 0) return;
  Array3d r = {{0, 0, 0}}, s = r, z = r;
  r[n] = h * M_PI / 2;
  s[n] = (h < 0 ? h + 4 : h - 4) * M_PI / 2;
  Pose p(z, r), o(z, s);
  ptree robot;
  add_link(robot, "l0");
  add_link(robot, "l1");
  ptree &j = add_joint(robot, "j", "l0", "l1");
  RobotTree t(robot);
  const char *const E[] = {"", "visual", "collision", "inertial"};
  if (k) t.link("l0").add_child(E[k], ptree());
  ptree &e = k ? t.link("l0").get_child(E[k]) : j;
  e.put_child("origin", *o.to_ptree());
  t.transport_root_link_frame(p);
  const ptree &f = e;
  Pose q = Pose::from_ptree(f.get_child_optional("origin"));
  EQ("no translation", q.xyz(), 0, 0, 0);
  EQ("no rotation", q.rpy(), 0, 0, 0);
}
