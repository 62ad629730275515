// qi.geometry values: their text, and the functions the geometry module gives to its users
#include "shape.h"
#include <Eigen/Geometry>
#include <cassert>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "rotation_part.h"
#include <qi/geometry/geometry.hpp>
#include <almath/scenegraph/qigeometry.h>
#include <qi/anymodule.hpp>
namespace qi { namespace geometry { void register_geometry_module(qi::ModuleBuilder *); } }
namespace qg = qi::geometry;
#include "items.h"
static void shown(const std::string &s, const char *const *names, const double *x, int n) {
  std::vector<Item> r = items(s);
  law_eqi("one number per component", r.size(), n);
  for (int i = 0; i < n && i < int(r.size()); ++i) {
    law_eq("components in order", r[i].value, x[i]);
    if (names[i]) law_true("after the name of the type", r[i].name == names[i]);
  }
}
static double printed(double x) {
  std::ostringstream s;
  s << x;
  std::istringstream in(s.str());
  double y = 0;
  in >> y;
  return y;
}
template <class T> static void text(const T &t, const char *const *names, int n) {
  std::ostringstream s;
  std::ostream &o = s << t;
  law_true("the stream given", &o == &s);
  double x[7];
  for (int i = 0; i < n; ++i) x[i] = printed(law_in("x", i));
  shown(s.str(), names, x, n);
}
LAW law_qi_text_vector() {
  static const char *const names[] = {"Vector3", "", ""};
  text(qg::Vector3{law_in("x", 0), law_in("x", 1), law_in("x", 2)}, names, 3);
}
static qg::Quaternion quaternion() { qg::Quaternion q; q.x = law_in("x", 0); q.y = law_in("x", 1); q.z = law_in("x", 2); q.w = law_in("x", 3); return q; }
LAW law_qi_text_quaternion() {
  static const char *const names[] = {"Quaternion", "", "", ""};
  text(quaternion(), names, 4);
}
LAW law_qi_text_transform() {
  static const char *const names[] = {"Quaternion", "", "", "", "Vector3", "", ""};
  qg::Transform t;
  t.rotation = quaternion();
  t.translation = qg::Vector3{law_in("x", 4), law_in("x", 5), law_in("x", 6)};
  text(t, names, 7);
  std::ostringstream s;
  s << t;
  law_true("begins with the name of the type", s.str().compare(0, 10, "Transform(") == 0);
}
template <class F> static F method(const qi::ModuleBuilder &b, const char *name) {
  void *f = nullptr;
  int n = 0;
  for (auto &m : b.methods) if (m.first == name) { f = m.second; ++n; }
  law_eqi("advertised once", n, 1);
  return F(f);
}
static void same(const qg::Vector3 &a, const qg::Vector3 &b) { law_eq("x", a.x, b.x); law_eq("y", a.y, b.y); law_eq("z", a.z, b.z); }
static void same(const qg::Quaternion &a, const qg::Quaternion &b) { law_eq("w", a.w, b.w); law_eq("x", a.x, b.x); law_eq("y", a.y, b.y); law_eq("z", a.z, b.z); }
static void same(const qg::Transform &a, const qg::Transform &b) { same(a.rotation, b.rotation); same(a.translation, b.translation); }
static void same(double a, double b) { law_eq("value", a, b); }
// what is called by this name does what the function does
template <class R, class... A> static void is(const qi::ModuleBuilder &b, const char *name, R (*f)(A...), typename std::decay<A>::type... a) {
  R (*g)(A...) = method<R (*)(A...)>(b, name);
  if (g) same(g(a...), f(a...));
}
// rotations of the plane, whose quaternions have rational values
static qg::Transform turned(double s, double c, const char *n) { return qg::makeTransform(qg::makeQuaternion(0, 0, s, c), qg::Vector3{law_in(n, 0), law_in(n, 1), law_in(n, 2)}); }
static qi::ModuleBuilder module() {
  qi::ModuleBuilder b;
  qg::register_geometry_module(&b);
  return b;
}
LAW law_qi_module_make() {
  qi::ModuleBuilder b = module();
  double x = law_in("i", 0), y = law_in("i", 1), z = law_in("i", 2), w = law_in("i", 3);
  is(b, "makeVector3", &qg::makeVector3, x, y, z);
  is(b, "makeQuaternion", &qg::makeQuaternion, x, y, z, w);
  is(b, "makeTransform", &qg::makeTransform, quaternion(), qg::Vector3{x, y, z});
  is(b, "makeQuaternionFromAngleAxis", &qg::makeQuaternionFromAngleAxis, x, qg::Vector3{0, 3, 4});
}
LAW law_qi_module_norm() {
  qi::ModuleBuilder b = module();
  is(b, "norm", &qg::norm, quaternion());
  qg::Quaternion q;
  q.x = 1; q.y = -2; q.z = 4; q.w = 10;
  is(b, "normalized", &qg::normalized, q);
}
LAW law_qi_module_product() {
  qi::ModuleBuilder b = module();
  typedef qg::Transform (*P)(const qg::Transform &, const qg::Transform &);
  is(b, "multiply", P(&qg::operator*), turned(0.6, 0.8, "a"), turned(-0.28, 0.96, "b"));
}
LAW law_qi_module_inverse() {
  qi::ModuleBuilder b = module();
  is(b, "inverse", &qg::inverse, turned(0.6, 0.8, "a"));
}
