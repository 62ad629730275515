// Rigid body systems: what a builder is asked for, what its decorators let through, and the system a URDF document describes
#include "tree.h"
#include "mat.h"
#include <boost/property_tree/xml_parser.hpp>
#include <almath/scenegraph/urdfeigen.h>
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
boost::property_tree::ptree law_written, law_to_read;
namespace B = AL::RigidBodySystemBuilder;
typedef B::Interface<double>::Pose EPose;
typedef AL::Math::BodyMass<double> BodyMass;
template <class T> struct Recorder : B::Interface<T> {
  B::Config c;
  bool refuses = false;
  struct Asked { bool body; std::string parent, name, via; typename B::Interface<T>::Pose pose; B::JointType type; typename B::Interface<T>::BodyMass mass; };
  std::vector<Asked> asked;
  const B::Config &config() const { return c; }
  void addLink(B::LinkData<T> l) {
    if (refuses) throw std::runtime_error("refused");
    asked.push_back(Asked{true, l.parent_body, l.new_body, l.new_joint, l.pose_parent_new, l.joint_type, l.body_mass});
  }
  void addStaticFrame(B::StaticFrameData<T> f) {
    if (refuses) throw std::runtime_error("refused");
    asked.push_back(Asked{false, f.parent_frame, f.new_static_frame, f.new_static_transform, f.pose_parent_new, B::JointType::FreeFlyer, {}});
  }
};
typedef Recorder<double> R;
static EPose pose_in(const char *r, const char *x) {
  EPose p;
  for (int i = 0; i < 3; ++i) { p.translation()[i] = law_in(x, i); for (int j = 0; j < 3; ++j) p.linear()(i, j) = law_in(r, 3 * i + j); }
  return p;
}
static BodyMass mass_in() {
  BodyMass b;
  b.mass = law_in("m", 0);
  for (int i = 0; i < 3; ++i) { b.center_of_mass[i] = law_in("c", i); for (int j = 0; j < 3; ++j) b.rotational_inertia(i, j) = law_in("I", 3 * i + j); }
  return b;
}
template <class P, class Q> static void same_pose(const P &p, const Q &q) {
  for (int i = 0; i < 3; ++i) {
    law_eq("translation", p.translation()[i], q.translation()[i]);
    for (int j = 0; j < 3; ++j) law_eq("rotation", p.linear()(i, j), q.linear()(i, j));
  }
}
template <class P, class Q> static void same_mass(const P &p, const Q &q, bool inertia = true) {
  law_eq("mass", p.mass, q.mass);
  for (int i = 0; i < 3; ++i) {
    law_eq("centre of mass", p.center_of_mass[i], q.center_of_mass[i]);
    for (int j = 0; j < 3; ++j) law_eq("inertia", p.rotational_inertia(i, j), inertia ? q.rotational_inertia(i, j) : 0);
  }
}
static B::JointType type_in() {
  const B::JointType T[] = {B::JointType::FreeFlyer, B::JointType::Rx, B::JointType::Ry, B::JointType::Rz};
  return T[law_pick("type of joint", 4)];
}
template <class T> static void is_body(const Recorder<T> &r, const char *joint, B::JointType type, bool inertia = true) {
  law_eqi("one request", r.asked.size(), 1);
  if (r.asked.size() != 1) return;
  auto &a = r.asked[0];
  law_true("a body", a.body && a.parent == "p" && a.name == "n" && a.via == joint && a.type == type);
  same_pose(a.pose, pose_in("R", "x"));
  same_mass(a.mass, mass_in(), inertia);
}
template <class T> static void is_frame(const Recorder<T> &r, const char *joint) {
  law_eqi("one request", r.asked.size(), 1);
  if (r.asked.size() != 1) return;
  auto &a = r.asked[0];
  law_true("a static frame", !a.body && a.parent == "p" && a.name == "n" && a.via == joint);
  same_pose(a.pose, pose_in("R", "x"));
}
LAW law_builder_add() {
  R r;
  r.c.no_static_frame = law_pick("no static frames", 2);
  bool custom = law_pick("joint name format", 2);
  law_true("no galilean frame name, static frames by default", B::Config().galilean_frame == "" && !B::Config().no_static_frame);
  if (custom) r.c.joint_name_format = "to_%1%!";
  const char *def = custom ? "to_n!" : "n_joint";
  law_true("joint name", r.c.joint_name("n") == def);
  B::JointType t = type_in();
  int k = law_pick("form", 4);
  if (k == 0) r.add("p", "n", pose_in("R", "x"), t, mass_in(), std::string("j"));
  if (k == 1) r.add("p", "n", pose_in("R", "x"), t, mass_in());
  if (k == 2) r.add("p", "n", pose_in("R", "x"), std::string("j"));
  if (k == 3) r.add("p", "n", pose_in("R", "x"));
  if (k < 2) is_body(r, k ? def : "j", t);
  else if (r.c.no_static_frame) law_eqi("dropped", r.asked.size(), 0);
  else is_frame(r, k == 3 ? def : "j");
}
template <class I, class T> static void through(I &i, const Recorder<T> &r, bool inertia) {
  law_true("the configuration of the builder", &i.config() == &r.c);
  B::JointType t = type_in();
  if (law_pick("static frame", 2)) { i.add("p", "n", pose_in("R", "x"), std::string("j")); is_frame(r, "j"); }
  else { i.add("p", "n", pose_in("R", "x"), t, mass_in(), std::string("j")); is_body(r, "j", t, inertia); }
}
LAW law_builder_decorator() { R r; B::Decorator<double> d(r); through(d, r, true); }
LAW law_builder_adapter_to_float() { Recorder<float> r; B::Adapter<double, float> d(r); through(d, r, true); }
LAW law_builder_adapter_to_double() {
  R r;
  B::Adapter<float, double> d(r);
  law_true("the configuration of the builder", &d.config() == &r.c);
  B::JointType t = type_in();
  if (law_pick("static frame", 2)) { d.add("p", "n", pose_in("R", "x").cast<float>(), std::string("j")); is_frame(r, "j"); }
  else { d.add("p", "n", pose_in("R", "x").cast<float>(), t, mass_in().cast<float>(), std::string("j")); is_body(r, "j", t); }
}
LAW law_builder_inertia_eraser() { R r; B::InertiaEraser<double> d(r); through(d, r, false); }
// names
static bool ask(B::Interface<double> &b, bool body, const std::string &parent, const std::string &name, const std::string &via) {
  try {
    if (body) b.add(parent, name, EPose::Identity(), B::JointType::Rx, BodyMass(), via);
    else b.add(parent, name, EPose::Identity(), via);
  } catch (const std::runtime_error &) { return false; }
  return true;
}
// known: the galilean frame, bodies a and b, the static frame s; transforms ja, jb, ts
static void names(int how) {
  R r;
  const char *const G[] = {"g", ""};
  std::string g = G[how ? 0 : law_pick("galilean frame", 2)];
  r.c.galilean_frame = g;
  B::NamesChecker<double> d(r);
  law_true("a first body", ask(d, true, g, "a", "ja"));
  law_true("a frame of a body", ask(d, false, "a", "s", "ts"));
  law_true("a body of a body", ask(d, true, "a", "b", "jb"));
  law_eqi("all handed over", r.asked.size(), 3);
  const char *const P[] = {"g", "b", "s", "x", ""}, *const N[] = {"g", "b", "s", "new", "jb", "ts"}, *const V[] = {"jb", "ts", "jnew", "b", "s"};
  bool body = law_pick("body", 2);
  int ip = law_pick("parent", how ? 4 : 5), in = law_pick("name", how ? 4 : 6), iv = law_pick("via", how ? 3 : 5);
  std::string p = P[ip], n = N[in], v = V[iv];
  bool parent_ok = p == g || ip == 1 || (!body && ip == 2);
  bool name_ok = in > 2 || (in == 0 && g == "");
  bool ok = parent_ok && name_ok && iv > 1;
  if (how == 0) {
    law_true("accepted exactly when the parent is known and the names are new", ask(d, body, p, n, v) == ok);
    law_eqi("handed over exactly when accepted", r.asked.size(), 3 + ok);
    if (ok && r.asked.size() == 4) law_true("as asked", r.asked[3].body == body && r.asked[3].parent == p && r.asked[3].name == n && r.asked[3].via == v);
    return;
  }
  if (how == 1) {  // a request that fails, here or at the builder, leaves the names free
    r.refuses = ok;
    law_true("refused", !ask(d, body, p, n, v));
    r.refuses = false;
    law_eqi("nothing handed over", r.asked.size(), 3);
    bool again = law_pick("body again", 2), use = law_pick("name again", 2);
    bool free = use ? name_ok : iv > 1;
    law_true("still free or still taken", ask(d, again, "a", use ? n : std::string("other"), use ? std::string("jother") : v) == free);
    return;
  }
  if (!ok) return;  // a request that is met takes the names
  law_true("accepted", ask(d, body, p, n, v));
  bool next = law_pick("next is a body", 2);
  int w = law_pick("next: parent, name, via", 4);
  law_true("next", ask(d, next, w == 1 ? n : std::string("b"), w == 2 ? n : std::string("other"), w == 3 ? v : std::string("jother")) == (w == 0 || (w == 1 && (body || !next))));
}
LAW law_names_request() { names(0); }
LAW law_names_failed() { names(1); }
LAW law_names_met() { names(2); }
// URDF
static void put_inertial(ptree &pt, int i) {
  const char *const M[] = {"m0", "m1", "m2", "m3"}, *const I[] = {"I0", "I1", "I2", "I3"}, *const N[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"},
             *const X[] = {"c0", "c1", "c2", "c3"};
  pt.put("mass.<xmlattr>.value", num(law_pos(M[i], 0)));
  for (int k = 0; k < 6; ++k) pt.put(std::string("inertia.<xmlattr>.") + N[k], k == 0 || k==4 ? num(law_in(I[i], k)) : std::string("0"));
  pt.put("origin.<xmlattr>.xyz", num(law_pos(X[i], 0), law_pos(X[i], 1), law_pos(X[i], 2)));
}
struct Names : RobotTree::JointConstVisitor {
  std::vector<std::string> v;
  bool discover(const ptree &j) { v.push_back(j.get<std::string>("<xmlattr>.name")); return true; }
};
// the requests expected for the document
static bool expected(ptree robot, bool rm_root, bool no_continuous, R &e) {
  RobotTree t(robot);
  if (rm_root) try { t.rm_root_joint(); } catch (const std::runtime_error &) { return false; }
  if (no_continuous) makeContinuousJointsFixed(t);
  makeMasslessJointsFixed(t);
  Names order;
  t.traverse_joints(order);
  std::string root = t.root_link();
  for (std::size_t i = 0; i <= order.v.size(); ++i) {
    Joint *j = nullptr;
    if (i) j = new Joint(t.joint(order.v[i - 1]));
    std::string name = j ? j->child_link() : root;
    EPose p = EPose::Identity();
    if (j) p = AL::Math::toEigenTransform(j->origin());
    if (j && j->type() == Joint::fixed) {
      if (!e.c.no_static_frame) e.asked.push_back(R::Asked{false, j->parent_link(), name, j->name(), p, B::JointType::FreeFlyer, {}});
      continue;
    }
    B::JointType type = B::JointType::FreeFlyer;
    if (j && j->type() != Joint::floating) {
      if (j->type() != Joint::revolute && j->type() != Joint::continuous) return false;
      Array3d a = j->axis();
      if (a[0] == 1 && a[1] == 0 && a[2] == 0) type = B::JointType::Rx;
      else if (a[0] == 0 && a[1] == 1 && a[2] == 0) type = B::JointType::Ry;
      else if (a[0] == 0 && a[1] == 0 && a[2] == 1) type = B::JointType::Rz;
      else return false;
    }
    Link l(t.link(name));
    if (!l.inertial()) return !j;  // a massless root: nothing to build
    BodyMass m;
    AL::Math::urdfInertialToEigen(*l.inertial(), m.mass, m.center_of_mass, m.rotational_inertia);
    e.asked.push_back(R::Asked{true, j ? j->parent_link() : "", name, j ? j->name() : e.c.joint_name(name), p, type, m});
  }
  return true;
}
static void builds(ptree &robot, bool rm_root, bool no_continuous, int from = 0) {
  R e, r;
  if (from == 1) { e.c.no_static_frame = r.c.no_static_frame = true; e.c.joint_name_format = r.c.joint_name_format = "%1%!"; }
  bool ok = expected(robot, rm_root, no_continuous, e), done = true;
  ptree doc;
  doc.put_child("robot", robot);
  try {
    if (from == 2) {
      law_to_read = doc;
      std::istringstream is("");
      AL::buildRigidBodySystemFromUrdf(r, is, rm_root, no_continuous);
    } else AL::buildRigidBodySystemFromUrdf(r, doc, rm_root, no_continuous);
  } catch (const std::runtime_error &) { done = false; }
  law_true("refused exactly when a joint is not supported", ok == done);
  law_eqi("requests", r.asked.size(), e.asked.size());
  for (std::size_t i = 0; i < r.asked.size() && i < e.asked.size(); ++i) {
    auto &a = r.asked[i], &b = e.asked[i];
    law_true("a body or a static frame", a.body == b.body);
    law_true("names", a.parent == b.parent && a.name == b.name && a.via == b.via);
    law_true("type", a.type == b.type);
    same_pose(a.pose, b.pose);
    if (a.body && b.body) same_mass(a.mass, b.mass);
  }
}
static void place(ptree &j, int i) {
  const char *const J[] = {"", "o1", "o2", "o3"};
  j.put("origin.<xmlattr>.xyz", num(law_pos(J[i], 0), law_pos(J[i], 1), law_pos(J[i], 2)));
}
static void one_joint(const char *type, const std::string &axis, int origin, bool options) {
  Tree d(2, 0);
  ptree &j = *d.find("joint", "j1");
  j.put("<xmlattr>.type", type);
  if (!axis.empty()) j.put("axis.<xmlattr>.xyz", axis);
  if (origin) {
    j.put("origin.<xmlattr>.xyz", vecin("o"));
    j.put("origin.<xmlattr>.rpy", num(0, 0, law_in("yaw", 0)));
  }
  for (int i = 0; i < 2; ++i) put_inertial(d.find("link", nm('l', i))->put_child("inertial", ptree()), i);
  builds(d.robot, false, options && law_pick("continuous joints fixed", 2));
}
LAW law_urdf_joint_types() {
  const char *const T[] = {"fixed", "revolute", "continuous", "floating", "prismatic", "planar"};
  int k = law_pick("type", 6), o = law_pick("origin", 2);
  one_joint(T[k], k == 2 && o ? "0 0 1" : "", o, k == 2);
}
LAW law_urdf_joint_axes() {
  const char *const C[] = {"x is 0, 1, other", "y is 0, 1, other", "z is 0, 1, other"};
  std::string a;
  for (int i = 0; i < 3; ++i) {
    int k = law_pick(C[i], 3);
    double x = law_in("axis", i);
    if (k == 2) { law_assume(x != 0); law_assume(x != 1); }
    a += k == 2 ? num(x) : std::string(k ? "1" : "0");
    a += ' ';
  }
  one_joint("revolute", a, 0, false);
}
static void trees(int n, int types) {
  Tree d(n, 0);
  const char *const T[] = {"revolute", "fixed", "floating"}, *const Q[] = {"", "type of j1", "type of j2", "type of j3"}, *const L[] = {"l0 has a mass", "l1 has a mass", "l2 has a mass", "l3 has a mass"};
  for (int i = 0; i < n; ++i) {
    if (law_pick(L[i], 2)) put_inertial(d.find("link", nm('l', i))->put_child("inertial", ptree()), i);
    if (!i) continue;
    ptree &j = *d.find("joint", nm('j', i));
    j.put("<xmlattr>.type", T[law_pick(Q[i], types)]);
    if (i == 2) j.put("axis.<xmlattr>.xyz", "0 0 1");
    place(j, i);
  }
  builds(d.robot, false, false);
}
LAW law_urdf_tree() { trees(3, 2); }
// a tree below and beside a joint of any type
LAW law_urdf_near_type() {
  const char *const T[] = {"fixed", "revolute", "continuous", "floating", "prismatic", "planar"};
  Tree d(3, 0);
  int k = law_pick("type of j1", 6);
  for (int i = 0; i < 3; ++i) {
    put_inertial(d.find("link", nm('l', i))->put_child("inertial", ptree()), i);
    if (!i) continue;
    ptree &j = *d.find("joint", nm('j', i));
    j.put("<xmlattr>.type", i == 1 ? T[k] : "revolute");
    place(j, i);
  }
  builds(d.robot, false, false);
}
LAW law_t_urdf_tree_types() { trees(3, 3); }
LAW law_t_urdf_tree() { trees(4, 2); }
static void options(int types, int from) {
  Tree d(3, 0);
  const char *const T[] = {"continuous", "fixed", "revolute"}, *const Q[] = {"", "type of j1", "type of j2"};
  for (int i = 0; i < 3; ++i) {
    put_inertial(d.find("link", nm('l', i))->put_child("inertial", ptree()), i);
    if (!i) continue;
    ptree &j = *d.find("joint", nm('j', i));
    j.put("<xmlattr>.type", T[types ? law_pick(Q[i], types) : i - 1]);
    place(j, i);
  }
  bool rm = law_pick("no root joint", 2), c = types ? law_pick("continuous joints fixed", 2) : 1;
  builds(d.robot, rm, c, from);
}
LAW law_urdf_options() { options(2, 0); }
LAW law_t_urdf_options() { options(3, 0); }
LAW law_urdf_sources() { options(0, 1 + law_pick("configuration, stream", 2)); }
