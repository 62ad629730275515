// URDF elements: what every accessor reads, its defaults, and the text form of vectors and poses
#include "doc.h"
#include <almath/scenegraph/urdfeigen.h>
#include <sstream>

static std::string rep(int n) {
  std::string s = num(law_in("v", 0));
  for (int i = 1; i < n; ++i) s += ' ' + num(law_in("v", i));
  return s;
}
LAW law_acc_axis() {
  ptree pt;
  bool has = law_pick("axis present", 2);
  if (has) pt.put("axis.<xmlattr>.xyz", vecin("a"));
  Array3d r = Joint(pt).axis();
  if (has) EQ("axis", r, "a"); else EQ("axis default", r, 1, 0, 0);
}
LAW law_acc_mimic() {
  ptree pt;
  bool is = law_pick("mimic", 2), m = law_pick("multiplier", 2), o = law_pick("offset", 2);
  if (is) {
    pt.put("mimic.<xmlattr>.joint", "other");
    if (m) pt.put("mimic.<xmlattr>.multiplier", num(law_in("m", 0)));
    if (o) pt.put("mimic.<xmlattr>.offset", num(law_in("o", 0)));
  }
  boost::optional<Mimic> r = Joint(pt).mimic();
  law_true("presence", bool(r) == is);
  if (is && r) {
    law_true("joint", r->joint() == "other");
    law_eq("multiplier", r->multiplier(), m ? law_in("m", 0) : 1);
    law_eq("offset", r->offset(), o ? law_in("o", 0) : 0);
  }
}
LAW law_acc_limit() {
  ptree pt;
  bool l = law_pick("lower", 2), u = law_pick("upper", 2), el = law_pick("limit element", 2);
  if (el) pt.put("limit", "");
  if (l) pt.put("limit.<xmlattr>.lower", num(law_in("l", 0)));
  if (u) pt.put("limit.<xmlattr>.upper", num(law_in("u", 0)));
  Joint j(pt);
  auto r = j.limit_lower_upper();
  law_true("range presence", bool(r) == (l || u));
  if (r) {
    law_eq("lower", r->first, l ? law_in("l", 0) : 0);
    law_eq("upper", r->second, u ? law_in("u", 0) : 0);
  }
  law_true("no effort", !j.limit_effort());
  law_true("no velocity", !j.limit_velocity());
}
LAW law_acc_limit_effort() {
  ptree pt;
  bool e = law_pick("effort", 2), v = law_pick("velocity", 2);
  if (e) pt.put("limit.<xmlattr>.effort", num(law_in("e", 0)));
  if (v) pt.put("limit.<xmlattr>.velocity", num(law_in("v", 0)));
  Joint j(pt);
  auto a = j.limit_effort();
  auto b = j.limit_velocity();
  law_true("effort presence", bool(a) == e);
  law_true("velocity presence", bool(b) == v);
  if (a) law_eq("effort", *a, law_in("e", 0));
  if (b) law_eq("velocity", *b, law_in("v", 0));
  law_true("no range", !j.limit_lower_upper());
}
static const char *const TYPES[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar", "ball", "", "Fixed"};
LAW law_acc_type() {
  int k = law_pick("type", 9);
  ptree pt;
  pt.put("<xmlattr>.type", TYPES[k]);
  law_throws_iff("unknown type", k > 5);
  Joint::Type t = Joint(pt).type();
  const Joint::Type want[] = {Joint::revolute, Joint::continuous, Joint::prismatic, Joint::fixed, Joint::floating, Joint::planar};
  law_true("type", t == want[k > 5 ? 0 : k]);
}
LAW law_acc_names() {
  ptree pt;
  pt.put("<xmlattr>.name", "j");
  pt.put("parent.<xmlattr>.link", "p");
  pt.put("child.<xmlattr>.link", "c");
  Joint j(pt);
  law_true("joint name", j.name() == "j" && name(pt) == "j" && Link(pt).name() == "j");
  law_true("parent", j.parent_link() == "p" && parent_link(pt) == "p");
  law_true("child", j.child_link() == "c" && child_link(pt) == "c");
  put_name(pt, "k");
  law_true("renamed", j.name() == "k" && pt.count("<xmlattr>") == 1 && pt.get_child("<xmlattr>").size() == 1);
}
LAW law_acc_missing_name() {
  ptree pt;
  int k = law_pick("what", 6);
  law_throws_iff("missing attribute", true);
  if (k == 0) Joint(pt).name();
  else if (k == 1) Joint(pt).parent_link();
  else if (k == 2) Joint(pt).child_link();
  else if (k == 3) Joint(pt).type();
  else if (k == 4) Mimic(pt).joint();
  else Link(pt).name();
}
LAW law_acc_origin() {
  ptree pt;
  int who = law_pick("element", 3);
  bool o = law_pick("origin", 2), x = law_pick("xyz", 2), r = law_pick("rpy", 2);
  if (o) pt.put("origin", "");
  if (x) pt.put("origin.<xmlattr>.xyz", vecin("x"));
  if (r) pt.put("origin.<xmlattr>.rpy", vecin("r"));
  Pose p = who == 0 ? Joint(pt).origin() : who == 1 ? Inertial(pt).origin() : Visual(pt).origin();
  if (x) EQ("xyz", p.xyz(), "x"); else EQ("xyz default", p.xyz(), 0, 0, 0);
  if (r) EQ("rpy", p.rpy(), "r"); else EQ("rpy default", p.rpy(), 0, 0, 0);
}
LAW law_acc_inertial() {
  ptree pt;
  bool has = law_pick("inertial", 2);
  const char *const n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  if (has) {
    pt.put("inertial.mass.<xmlattr>.value", num(law_in("m", 0)));
    for (int i = 0; i < 6; ++i) pt.put(std::string("inertial.inertia.<xmlattr>.") + n[i], num(law_in("i", i)));
  }
  boost::optional<Inertial> r = Link(pt).inertial();
  law_true("presence", bool(r) == has);
  if (r) {
    law_eq("mass", r->mass(), law_in("m", 0));
    law_eq("ixx", r->ixx(), law_in("i", 0)); law_eq("ixy", r->ixy(), law_in("i", 1)); law_eq("ixz", r->ixz(), law_in("i", 2));
    law_eq("iyy", r->iyy(), law_in("i", 3)); law_eq("iyz", r->iyz(), law_in("i", 4)); law_eq("izz", r->izz(), law_in("i", 5));
  }
}
LAW law_acc_inertia_matrix() {
  ptree pt;
  const char *const n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  for (int i = 0; i < 6; ++i) pt.put(std::string("inertia.<xmlattr>.") + n[i], num(law_in("i", i)));
  Eigen::Matrix3d m = AL::Math::toEigenMatrix3(Inertial(pt));
  const int k[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) law_eq("inertia matrix", m(i, j), law_in("i", k[i][j]));
}
LAW law_acc_missing_inertia() {
  ptree pt;
  int k = law_pick("what", 7);
  const char *const n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  for (int i = 0; i < 6; ++i) if (i != k) pt.put(std::string("inertia.<xmlattr>.") + n[i], num(law_in("i", i)));
  if (k != 6) pt.put("mass.<xmlattr>.value", num(law_in("m", 0)));
  Inertial r(pt);
  law_throws_iff("missing value", true);
  if (k == 0) r.ixx(); else if (k == 1) r.ixy(); else if (k == 2) r.ixz(); else if (k == 3) r.iyy();
  else if (k == 4) r.iyz(); else if (k == 5) r.izz(); else r.mass();
}
struct Which : boost::static_visitor<int> {
  int operator()(Box &b) const { Array3d s = b.size(); EQ("box size", s, "s"); return 0; }
  int operator()(Cylinder &c) const { law_eq("cylinder radius", c.radius(), law_in("r", 0)); law_eq("cylinder length", c.length(), law_in("l", 0)); return 1; }
  int operator()(Sphere &c) const { law_eq("sphere radius", c.radius(), law_in("r", 0)); return 2; }
  int operator()(Mesh &m) const { law_true("mesh filename", m.filename() == "f"); EQ("mesh scale", m.scale(), "s"); return 3; }
};
LAW law_acc_geometry() {
  ptree pt;
  int k = law_pick("shape", 5);
  if (k == 0) pt.put("geometry.box.<xmlattr>.size", vecin("s"));
  if (k == 1) { pt.put("geometry.cylinder.<xmlattr>.radius", num(law_in("r", 0))); pt.put("geometry.cylinder.<xmlattr>.length", num(law_in("l", 0))); }
  if (k == 2) pt.put("geometry.sphere.<xmlattr>.radius", num(law_in("r", 0)));
  if (k == 3) { pt.put("geometry.mesh.<xmlattr>.filename", "f"); pt.put("geometry.mesh.<xmlattr>.scale", vecin("s")); }
  if (k == 4) pt.put("geometry", "");
  law_throws_iff("no shape", k == 4);
  Geometry g = Visual(pt).geometry();
  law_eqi("shape", boost::apply_visitor(Which(), g), k);
}
LAW law_acc_mesh_scale_default() {
  ptree pt;
  pt.put("<xmlattr>.filename", "f");
  EQ("scale", Mesh(pt).scale(), 1, 1, 1);
}
LAW law_acc_visuals() {
  ptree pt;
  const char *const n[] = {"visual", "collision", "visual", "inertial", "visual"};
  for (int i = 0; i < 5; ++i) pt.add_child(n[i], ptree()).put("origin.<xmlattr>.xyz", num(law_in("v", i), 0, 0));
  int k = 0;
  for (Visual v : Link(pt).visuals()) {
    law_true("a visual too many", k < 6);
    law_eq("visual in order", v.origin().xyz()[0], law_in("v", k));
    k += 2;
  }
  law_eqi("every visual", k, 6);
}
// vectors as text
LAW law_txt_vector_count() {
  int n = law_pick("numbers", 5) + 1;
  Array3dTranslator tr;
  auto r = tr.get_value(rep(n));
  law_true("exactly three numbers", bool(r) == (n == 3));
  if (r) EQ("numbers", *r, "v");
}
LAW law_txt_vector_blanks() {
  int k = law_pick("text", 5);
  std::string a = num(law_in("v", 0)), b = num(law_in("v", 1)), c = num(law_in("v", 2));
  std::string s = k == 0 ? "  " + a + "   " + b + " " + c : k == 1 ? a + "\t" + b + "\n" + c + "  " : k == 2 ? a + "\r\n" + b + " \f" + c
                : k == 3 ? "\v" + a + " " + b + " " + c : a + " " + b + " " + c + " \n";
  Array3dTranslator tr;
  auto r = tr.get_value(s);
  law_true("blanks separate", bool(r));
  if (r) EQ("numbers", *r, "v");
}
LAW law_txt_vector_one_blank() {
  const char *const w[] = {" ", "\t", "\n", "\v", "\f", "\r"};
  int k = law_pick("blank", 6);
  std::string a = num(law_in("v", 0)), b = num(law_in("v", 1)), c = num(law_in("v", 2));
  Array3dTranslator tr;
  auto r = tr.get_value(a + w[k] + b + w[k] + c);
  law_true("one blank separates", bool(r));
  if (r) EQ("numbers", *r, "v");
}
LAW law_txt_vector_junk() {
  int k = law_pick("text", 6);
  std::string a = num(law_in("v", 0)), b = num(law_in("v", 1));
  std::string s = k == 0 ? a + " " + b + " x" : k == 1 ? "x " + a + " " + b : k == 2 ? a + ", " + b + ", " + a : k == 3 ? "" : k == 4 ? "   " : a + "x " + b + " " + a;
  Array3dTranslator tr;
  law_true("refused", !tr.get_value(s));
}
LAW law_txt_vector_roundtrip() {
  Array3dTranslator tr;
  Array3d v{{law_in("v", 0), law_in("v", 1), law_in("v", 2)}};
  auto t = tr.put_value(v);
  law_true("written", bool(t));
  auto r = tr.get_value(*t);
  law_true("read", bool(r));
  if (r) EQ("round trip", *r, "v");
}
LAW law_txt_double_roundtrip() {
  ptree pt;
  pt.put("x", (double)law_in("v", 0));
  law_eq("round trip", pt.get<double>("x"), law_in("v", 0));
}
LAW law_txt_origin_refused() {
  ptree pt;
  int k = law_pick("numbers", 3);
  pt.put(law_pick("part", 2) ? "origin.<xmlattr>.rpy" : "origin.<xmlattr>.xyz", rep(k == 0 ? 2 : k == 1 ? 4 : 1));
  law_throws_iff("malformed origin", true);
  Joint(pt).origin();
}
// poses as text
LAW law_pose_roundtrip() {
  int kx = law_pick("leading zeros of xyz", 4), kr = law_pick("leading zeros of rpy", 4);
  bool zx = kx == 3, zr = kr == 3;
  Pose p(arr("x", kx), arr("r", kr));
  boost::optional<ptree> t = p.to_ptree();
  law_true("absent exactly for the identity", bool(t) == !(zx && zr));
  Pose q = t ? Pose::from_ptree(*t) : Pose();
  EQ("xyz", q.xyz(), p.xyz());
  EQ("rpy", q.rpy(), p.rpy());
  if (t) {
    law_true("xyz written exactly when not zero", bool(t->get_child_optional("<xmlattr>.xyz")) == !zx);
    law_true("rpy written exactly when not zero", bool(t->get_child_optional("<xmlattr>.rpy")) == !zr);
  }
}
LAW law_pose_identity() {
  Pose p({{law_in("x", 0), law_in("x", 1), law_in("x", 2)}}, {{law_in("r", 0), law_in("r", 1), law_in("r", 2)}});
  bool z = true;
  for (int i = 0; i < 3; ++i) z = z && law_in("x", i) == 0 && law_in("r", i) == 0;
  law_true("is_identity", is_identity(p) == z);
  Pose d;
  EQ("default xyz", d.xyz(), 0, 0, 0);
  EQ("default rpy", d.rpy(), 0, 0, 0);
  Pose e = Pose::from_ptree(boost::optional<const ptree &>());
  law_true("no element", is_identity(e));
  bool same = true;
  Pose q({{law_in("y", 0), law_in("x", 1), law_in("y", 2)}}, {{law_in("r", 0), law_in("s", 1), law_in("s", 2)}});
  same = law_in("y", 0) == law_in("x", 0) && law_in("y", 2) == law_in("x", 2) && law_in("s", 1) == law_in("r", 1) && law_in("s", 2) == law_in("r", 2);
  law_true("equality", (p == q) == same);
  law_true("difference", (p != q) == !same);
}
// rotations of a pose: Rz(yaw) Ry(pitch) Rx(roll)
#include "mat.h"
static M3 mat(const Array3d &r) { return mrpy(r[0], r[1], r[2]); }
static M3 mat(const Eigen::Matrix3d &e) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.m[i][j] = e(i, j); return m; }
LAW law_rot_quaternion() {
  Array3d r{{law_in("r", 0), law_in("r", 1), law_in("r", 2)}};
  EQ("quaternion of rpy", mat(AL::Math::eigenQuaternionFromUrdfRpy(r).toRotationMatrix()), mat(r));
}
LAW law_rot_transform() {
  Array3d x{{law_in("x", 0), law_in("x", 1), law_in("x", 2)}}, r{{law_in("r", 0), law_in("r", 1), law_in("r", 2)}};
  Eigen::Isometry3d t = AL::Math::toEigenTransform(Pose(x, r));
  EQ("rotation", mat(Eigen::Matrix3d(t.linear())), mat(r));
  for (int i = 0; i < 3; ++i) law_eq("translation", t.translation()[i], x[i]);
}
static Eigen::Matrix3d eig(const M3 &m) {
  Eigen::Matrix3d e;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e(i, j) = m.m[i][j];
  return e;
}
// every rotation is Rz Ry Rx with the pitch in [-pi/2, pi/2]
static const double HPM = 1.5707963;
LAW law_rot_rpy_of_matrix() {
  M3 m = mrpy(law_in("r", 0), law_range("r", 1, -HPM, HPM), law_in("r", 2));
  EQ("rpy of a matrix", mat(AL::Math::urdfRpyFromEigenMatrix3(eig(m))), m);
}
LAW law_rot_rpy_of_matrix_gimbal() {
  M3 m = mrpy(law_in("r", 0), law_quarter(law_pick("up", 2) ? 1 : -1), law_in("r", 2));
  EQ("rpy of a matrix, gimbal lock", mat(AL::Math::urdfRpyFromEigenMatrix3(eig(m))), m);
}
// the matrix of a rotation given by half angles; the angles that the library extracts from a
// matrix are decided by law_rot_rpy_of_matrix
static M3 half(const Array3d &r) {
  double a = r[0] / 2, b = r[1] / 2, c = r[2] / 2;
  return mmul(mmul(mquat(std::cos(c), 0, 0, std::sin(c)), mquat(std::cos(b), 0, std::sin(b), 0)), mquat(std::cos(a), std::sin(a), 0, 0));
}
LAW law_rot_half() {
  Array3d r{{law_in("r", 0), law_in("r", 1), law_in("r", 2)}};
  EQ("half angles", half(r), mat(r));
}
LAW law_pose_inverse() {
  int kx = law_pick("leading zeros of xyz", 4), kr = law_pick("leading zeros of rpy", 4);
  Pose p(arr("x", kx), arr("r", kr));
  Pose i = p.inverse();
  M3 im = mtr(half(p.rpy()));
  if (kr == 3) EQ("inverse of no rotation", i.rpy(), 0, 0, 0);
  else EQ("inverse rotation", i.rpy(), AL::Math::urdfRpyFromEigenMatrix3(eig(im)));
  EQ("inverse translation", vec(i.xyz()[0], i.xyz()[1], i.xyz()[2]), mv(im, vec(-p.xyz()[0], -p.xyz()[1], -p.xyz()[2])));
}
LAW law_pose_product() {
  int ka = law_pick("leading zeros of rpy a", 4), kb = law_pick("leading zeros of rpy b", 4);
  Pose a(Array3d{{law_in("x", 0), law_in("x", 1), law_in("x", 2)}}, arr("r", ka)), b(Array3d{{law_in("y", 0), law_in("y", 1), law_in("y", 2)}}, arr("s", kb));
  Pose c = a * b;
  M3 m = half(a.rpy());
  if (ka == 3) EQ("no rotation on the left", c.rpy(), b.rpy());
  else if (kb == 3) EQ("no rotation on the right", c.rpy(), a.rpy());
  else EQ("rotation of a product", c.rpy(), AL::Math::urdfRpyFromEigenMatrix3(eig(mmul(m, half(b.rpy())))));
  V t = mv(m, vec(b.xyz()[0], b.xyz()[1], b.xyz()[2]));
  EQ("translation of a product", vec(c.xyz()[0], c.xyz()[1], c.xyz()[2]), vec(t.v[0] + a.xyz()[0], t.v[1] + a.xyz()[1], t.v[2] + a.xyz()[2]));
}
LAW law_vector_predicates() {
  Array3d v{{law_in("v", 0), law_in("v", 1), law_in("v", 2)}};
  law_true("is_zero", AL::urdf::is_zero(v) == (v[0] == 0 && v[1] == 0 && v[2] == 0));
  law_true("is_ones", AL::urdf::is_ones(v) == (v[0] == 1 && v[1] == 1 && v[2] == 1));
}
