// qi.geometry values (the structs of qi/geometry/geometry.idl.qi): algebra and exchange with almath
#include "law.h"
#include <Eigen/Geometry>
#include <iostream>
#include "rotation_part.h"
#include <qi/geometry/geometry.hpp>
#include <almath/scenegraph/almathqigeometry.hpp>
namespace qg = qi::geometry;
extern "C" int law_pick(const char *, int) NT __attribute__((const));
static qg::Vector3 v3q(const char *n) { return qg::Vector3{law_in(n, 0), law_in(n, 1), law_in(n, 2)}; }
static V V3(const qg::Vector3 &v) { return vec(v.x, v.y, v.z); }
static M3 MQ(const qg::Quaternion &q) { return mquat(q.w, q.x, q.y, q.z); }
static double sq(const qg::Quaternion &q) { return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z; }
// unit quaternions
static qg::Quaternion unitq(const char *n) {
  double a = law_in(n, 20), b = law_in(n, 21), c = law_in(n, 22);
  qg::Quaternion q;
  q.w = std::cos(a) * std::cos(b); q.x = std::cos(a) * std::sin(b); q.y = std::sin(a) * std::cos(c); q.z = std::sin(a) * std::sin(c);
  return q;
}
static qg::Quaternion anyq(const char *n) { qg::Quaternion q; q.w = law_in(n, 0); q.x = law_in(n, 1); q.y = law_in(n, 2); q.z = law_in(n, 3); return q; }
static qg::Transform any(const char *n) { qg::Transform t; t.rotation = unitq(n); t.translation = v3q(n); return t; }
static qg::Transform about(int k, const char *n) {  // the half angle is an input
  double a = law_in(n, 20);
  qg::Transform t;
  t.rotation.w = std::cos(a); t.rotation.x = t.rotation.y = t.rotation.z = 0;
  (k == 0 ? t.rotation.x : k == 1 ? t.rotation.y : t.rotation.z) = std::sin(a);
  t.translation = v3q(n);
  return t;
}
static void same(const char *w, const qg::Transform &t, const M3 &m, const V &v) { EQ(w, MQ(t.rotation), m); EQ(w, V3(t.translation), v); law_eq("unit quaternion", sq(t.rotation), 1); }
static void eq(const char *w, const qg::Quaternion &q, double s, double x, double y, double z) { law_eq(w, q.w, s); law_eq(w, q.x, x); law_eq(w, q.y, y); law_eq(w, q.z, z); }
LAW law_qi_make() {
  double x = law_in("i", 0), y = law_in("i", 1), z = law_in("i", 2), w = law_in("i", 3);
  EQ("vector", V3(qg::makeVector3(x, y, z)), vec(x, y, z));
  eq("quaternion", qg::makeQuaternion(x, y, z, w), w, x, y, z);
  qg::Quaternion q = anyq("q");
  qg::Transform t = qg::makeTransform(q, v3q("v"));
  eq("rotation", t.rotation, q.w, q.x, q.y, q.z);
  EQ("translation", V3(t.translation), V3(v3q("v")));
}
LAW law_qi_angle_axis() {
  double a = law_in("a", 0), r = law_pos("r", 0);
  V u = anyU("u");
  qg::Vector3 axis;
  axis.x = r * u.v[0]; axis.y = r * u.v[1]; axis.z = r * u.v[2];
  qg::Quaternion q = qg::makeQuaternionFromAngleAxis(a, axis);
  EQ("rotation", MQ(q), mrod(a, u.v[0], u.v[1], u.v[2]));
  law_eq("unit", sq(q), 1);
  EQ("axis unchanged", V3(axis), vec(r * u.v[0], r * u.v[1], r * u.v[2]));
}
LAW law_qi_norm() {
  qg::Quaternion q = anyq("q");
  double n = qg::norm(q);
  law_eq("norm", n * n, sq(q));
  law_true("not negative", n >= 0);
}
LAW law_qi_is_normalized() {
  qg::Quaternion q = anyq("q");
  double e = law_in("e", 0), n = std::sqrt(sq(q));
  law_true("within epsilon", qg::isNormalized(q, e) == ((n >= 1 ? n - 1 : 1 - n) < e));
}
static void scaled(const qg::Quaternion &r, const qg::Quaternion &q) {
  law_eq("unit", sq(r), 1);
  double n = std::sqrt(sq(q));
  eq("same direction", r, q.w / n, q.x / n, q.y / n, q.z / n);
}
LAW law_qi_normalize() {
  qg::Quaternion q = anyq("q"), r = q;
  law_assume(sq(q) > 0);
  qg::normalize(r);
  scaled(r, q);
}
LAW law_qi_normalized() {
  qg::Quaternion q = anyq("q");
  law_assume(sq(q) > 0);
  scaled(qg::normalized(q), q);
  qg::Quaternion p = anyq("q");
  eq("argument unchanged", q, p.w, p.x, p.y, p.z);
}
LAW law_qi_eigen() {
  qg::Transform t = any("t");
  Eigen::Affine3d a = qg::toEigenAffine3d(t);
  M3 m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.m[i][j] = a(i, j);
  EQ("rotation", m, MQ(t.rotation));
  EQ("translation", vec(a(0, 3), a(1, 3), a(2, 3)), V3(t.translation));
}
LAW law_qi_product() {
  qg::Transform a = any("a"), b = any("b"), c = a * b;
  V x = mv(MQ(a.rotation), V3(b.translation));
  for (int i = 0; i < 3; ++i) x.v[i] += V3(a.translation).v[i];
  EQ("translation", V3(c.translation), x);
  // Hamilton
  const qg::Quaternion &p = a.rotation, &q = b.rotation;
  eq("rotation", c.rotation, p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z, p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y,
     p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x, p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w);
}
LAW law_qi_product_same() {
  qg::Transform a = any("a"), b = any("a");
  a = a * a;
  V x = mv(MQ(b.rotation), V3(b.translation));
  for (int i = 0; i < 3; ++i) x.v[i] += V3(b.translation).v[i];
  same("square", a, mmul(MQ(b.rotation), MQ(b.rotation)), x);
}
static void inverted(const qg::Transform &t) {
  qg::Transform i = qg::inverse(t);
  M3 m = mtr(MQ(t.rotation));
  V x = mv(m, V3(t.translation));
  same("inverse", i, m, vec(-x.v[0], -x.v[1], -x.v[2]));
}
LAW law_qi_inverse_single() { inverted(about(law_pick("axis", 3), "t")); }
LAW law_qi_inverse() { inverted(any("t")); }
LAW law_qi_near_self() {
  qg::Transform t = any("t"), n = t;
  double e = law_pos("e", 0);
  law_true("itself", qg::isNear(t, t, e));
  n.rotation.w = -t.rotation.w; n.rotation.x = -t.rotation.x; n.rotation.y = -t.rotation.y; n.rotation.z = -t.rotation.z;
  law_true("the opposite quaternion", qg::isNear(t, n, e));
  law_true("the opposite quaternion, swapped", qg::isNear(n, t, e));
}
// two transforms with the same position, turned about the same axis: distances relative to the smallest of both
LAW law_qi_near_turned() {
  qg::Transform a = about(2, "a"), b = about(2, "b");
  b.translation.x = a.translation.x; b.translation.y = a.translation.y; b.translation.z = a.translation.z;
  double e = law_pos("e", 0);
  law_true("symmetric", qg::isNear(a, b, e) == qg::isNear(b, a, e));
  double d = 0, n = 0;
  M3 p = MQ(a.rotation), q = MQ(b.rotation);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d += (p.m[i][j] - q.m[i][j]) * (p.m[i][j] - q.m[i][j]);
  n = 4 + a.translation.x * a.translation.x + a.translation.y * a.translation.y + a.translation.z * a.translation.z;
  law_true("distance of the matrices", qg::isNear(a, b, e) == (d <= e * e * n));
}
LAW law_qi_near_moved() {
  qg::Transform a, b;
  a.rotation = b.rotation = qg::makeQuaternion(0, 0, 0, 1);
  a.translation = v3q("a");
  b.translation = v3q("b");
  law_assume(dot(V3(a.translation), V3(a.translation)) != dot(V3(b.translation), V3(b.translation)));
  double e = law_pos("e", 0);
  bool r = qg::isNear(a, b, e);
  law_true("symmetric", r == qg::isNear(b, a, e));
  V x = V3(a.translation), y = V3(b.translation);
  double d = 0;
  for (int i = 0; i < 3; ++i) d += (x.v[i] - y.v[i]) * (x.v[i] - y.v[i]);
  double n = 4 + dot(x, x), o = 4 + dot(y, y);
  law_true("relative distance", r == (d <= e * e * (n < o ? n : o)));
}
// ---- exchange with almath ----
LAW law_qi_to_almath() { qg::Transform t = any("t"); EQ("matrix and position", transformFromQiTransform(t), MQ(t.rotation), V3(t.translation)); }
LAW law_qi_from_almath_single() {
  int k = law_pick("axis", 3);
  double a = law_in("a", 0);
  M3 m = k == 0 ? mrx(a) : k == 1 ? mry(a) : mrz(a);
  V x = vec(law_in("x", 0), law_in("x", 1), law_in("x", 2));
  same("same motion", qiTransformFromALMath(asT(m, x)), m, x);
}
LAW law_qi_from_almath() {
  M3 m = anyM("r");
  V x = vec(law_in("x", 0), law_in("x", 1), law_in("x", 2));
  same("same motion", qiTransformFromALMath(asT(m, x)), m, x);
}
LAW law_qi_to_pose() {
  // heading about z, any half angle
  qg::Transform t = about(2, "t");
  Pose2D p = pose2DFromQiTransform(t);
  EQ("position", vec(p.x, p.y, 0), vec(t.translation.x, t.translation.y, 0));
  M3 m = MQ(t.rotation);
  law_eq("heading", std::cos(p.theta), m.m[0][0]);
  law_eq("heading", std::sin(p.theta), m.m[1][0]);
}
LAW law_qi_to_pose_any() {
  qg::Transform t = any("t");
  Pose2D p = pose2DFromQiTransform(t);
  EQ("position", vec(p.x, p.y, 0), vec(t.translation.x, t.translation.y, 0));
  law_eq("heading of the x axis", p.theta, std::atan2(MQ(t.rotation).m[1][0], MQ(t.rotation).m[0][0]));
}
LAW law_qi_from_pose() {
  Pose2D p = Q2("p");
  same("planar", qiTransformFromPose2D(p), mrz(p.theta), vec(p.x, p.y, 0));
}
