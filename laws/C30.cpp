// Exchange with Eigen and the mean of transforms
#include "law.h"
#include <almath/scenegraph/almatheigen.h>
#include <almath/scenegraph/bodymass.h>
#include <stdexcept>
#include <vector>
extern "C" int law_pick(const char *, int) NT __attribute__((const));
template <class E> static M3 mat(const E &e) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.m[i][j] = e(i, j); return m; }
template <class E> static V col3(const E &e) { return vec(e(0, 3), e(1, 3), e(2, 3)); }
LAW law_eigen_matrix34() { Transform t = TR("t"); auto e = toEigenMatrix34(t); EQ("matrix", mat(e), M(t)); EQ("position", col3(e), tv(t)); }
LAW law_eigen_matrix3() { Transform t = TR("t"); EQ("matrix", mat(toEigenMatrix3(t)), M(t)); }
LAW law_eigen_vector3() { Position3D p = P3("p"); Eigen::Vector3f e = toEigenVector3(p); EQ("vector", vec(e[0], e[1], e[2]), v3(p)); }
LAW law_eigen_affine() {
  Transform t = TR("t");
  Eigen::AffineCompact3f e = toEigenAffineCompact3(t);
  EQ("matrix", mat(e.linear()), M(t));
  EQ("position", col3(e), tv(t));
  Position3D p = P3("p");
  Eigen::Vector3f q = e * toEigenVector3(p);
  EQ("same action", vec(q[0], q[1], q[2]), v3(t * p));
}
template <class Q> static void quaternion(const M3 &m, const V &x) {
  Q q = toEigenQuaternion<typename Q::Scalar>(asT(m, x));
  EQ("same rotation", mquat(q.w(), q.x(), q.y(), q.z()), m);
  law_eq("unit", q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1);
}
static M3 about(int k, double a) { return k == 0 ? mrx(a) : k == 1 ? mry(a) : mrz(a); }
LAW law_eigen_quaternion() { quaternion<Eigen::Quaternionf>(about(law_pick("axis", 3), law_in("a", 0)), vec(law_in("x", 0), law_in("x", 1), law_in("x", 2))); }
LAW law_eigen_quaternion_general() { quaternion<Eigen::Quaternionf>(anyM("r"), vec(law_in("x", 0), law_in("x", 1), law_in("x", 2))); }
// and back
static Eigen::Matrix<float, 3, 4> m34(const char *n) { Eigen::Matrix<float, 3, 4> e; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) e(i, j) = law_in(n, 4 * i + j); return e; }
static void same(const char *w, const Transform &t) { EQ(w, t, TR("t")); }
LAW law_back_matrix() { same("value", toALMathTransform(m34("t"))); Transform t = TR("junk"); toALMathTransform(m34("t"), t); same("out", t); }
LAW law_back_matrix_row_major() { Eigen::Matrix<float, 3, 4, Eigen::RowMajor> e = m34("t"); same("value", toALMathTransform(e)); Transform t = TR("junk"); toALMathTransform(e, t); same("out", t); }
LAW law_back_block() {
  Eigen::Matrix4f e = Eigen::Matrix4f::Zero();
  e.topRows<3>() = m34("t");
  same("block", toALMathTransform(e.topRows<3>()));
}
LAW law_back_affine_compact() { Eigen::AffineCompact3f e; e.matrix() = m34("t"); same("value", toALMathTransform(e)); Transform t = TR("junk"); toALMathTransform(e, t); same("out", t); }
LAW law_back_affine() {
  Eigen::Affine3f e = Eigen::Affine3f::Identity();
  e.affine() = m34("t");
  same("value", toALMathTransform(e));
  Transform t = TR("junk");
  toALMathTransform(e, t);
  same("out", t);
}
LAW law_back_isometry() { Eigen::Isometry3f e = Eigen::Isometry3f::Identity(); e.affine() = m34("t"); same("value", toALMathTransform(e)); }
LAW law_back_position() { EQ("position", toALMathPosition3D(Eigen::Vector3f(law_in("p", 0), law_in("p", 1), law_in("p", 2))), P3("p")); }
LAW law_back_velocity() {
  Vector6f e;
  for (int i = 0; i < 6; ++i) e[i] = law_in("v", i);
  EQ("value", toALMathVelocity6D(e), V6("v"));
  Velocity6D v = V6("junk");
  toALMathVelocity6D(e, v);
  EQ("out", v, V6("v"));
}
LAW law_round_trips() {
  Transform t = TR("t");
  same("matrix", toALMathTransform(toEigenMatrix34(t)));
  same("affine", toALMathTransform(toEigenAffineCompact3(t)));
  EQ("position", toALMathPosition3D(toEigenVector3(P3("p"))), P3("p"));
}
// masses
LAW law_mass_cast() {
  BodyMass<double> b;
  b.mass = law_in("m", 0);
  for (int i = 0; i < 3; ++i) b.center_of_mass[i] = law_in("c", i);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) b.rotational_inertia(i, j) = law_in("I", 3 * i + j);
  BodyMass<float> f = b.cast<float>();
  BodyMass<double> d = f.cast<double>();
  law_eq("mass", f.mass, b.mass);
  law_eq("mass", d.mass, b.mass);
  for (int i = 0; i < 3; ++i) { law_eq("centre", f.center_of_mass[i], b.center_of_mass[i]); law_eq("centre", d.center_of_mass[i], b.center_of_mass[i]); }
  EQ("inertia", mat(f.rotational_inertia), mat(b.rotational_inertia));
  EQ("inertia", mat(d.rotational_inertia), mat(b.rotational_inertia));
}
// means
typedef std::vector<Transform> List;
LAW law_mean_of_none() { law_throws_iff("empty", true); averageTransforms(List()); }
static const double A = 3.1;
static Transform at(const M3 &m, int i) { return asT(m, vec(law_in("x", i), law_in("y", i), law_in("z", i))); }
static V mean(int n) {
  V s = vec(0, 0, 0);
  for (int i = 0; i < n; ++i) s = vec(s.v[0] + law_in("x", i), s.v[1] + law_in("y", i), s.v[2] + law_in("z", i));
  return vec(s.v[0] / n, s.v[1] / n, s.v[2] / n);
}
LAW law_mean_of_equal_rotations() {
  int n = law_pick("number", 4) + 1;
  M3 m = about(law_pick("axis", 3), law_range("a", 0, -A, A));
  List l;
  for (int i = 0; i < n; ++i) l.push_back(at(m, i));
  EQ("mean", averageTransforms(l), m, mean(n));
}
// the normalised sum of the quaternions, each on the side of the first one
struct Q4 { double v[4]; };
static Q4 quat(int k, double a) { Q4 q = {{std::cos(a), 0, 0, 0}}; q.v[k + 1] = std::sin(a); return q; }
static M3 mat(const Q4 &q) { return mquat(q.v[0], q.v[1], q.v[2], q.v[3]); }
static double qdot(const Q4 &a, const Q4 &b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2] + a.v[3] * b.v[3]; }
static void mean_of(const Q4 *q, int n) {
  List l;
  Q4 s = {{0, 0, 0, 0}};
  for (int i = 0; i < n; ++i) {
    l.push_back(at(mat(q[i]), i));
    double d = qdot(q[0], q[i]);
    law_assume(d != 0);  // half a turn apart: either side
    for (int k = 0; k < 4; ++k) s.v[k] += d < 0 ? -q[i].v[k] : q[i].v[k];
  }
  double n2 = qdot(s, s);
  M3 m = mat(s);
  for (int i = 0; i < 9; ++i) m.m[i / 3][i % 3] /= n2;
  EQ("mean", averageTransforms(l), m, mean(n));
}
LAW law_mean_of_two() {
  Q4 q[2];
  int k = law_pick("first axis", 3);
  q[0] = quat(k, law_in("a", 0));
  q[1] = quat(law_pick("second axis", 3), law_in("b", 0));
  mean_of(q, 2);
}
LAW law_mean_of_three() {
  Q4 q[3];
  q[0] = quat(0, law_in("a", 0));
  q[1] = quat(1, law_in("b", 0));
  q[2] = quat(2, law_in("c", 0));
  mean_of(q, 3);
}
// two rotations about one axis: the rotation halfway, the short way round
LAW law_mean_halfway() {
  int k = law_pick("axis", 3), h = law_pick("first angle", 7) - 3, d = law_pick("angle between", 7) - 3;
  List l;
  l.push_back(at(about(k, h * M_PI / 4), 0));
  l.push_back(at(about(k, (h + d) * M_PI / 4), 1));
  Transform t = averageTransforms(l);
  M3 m = M(t), two = mmul(m, m);  // twice the mean angle
  EQ("halfway", two, about(k, (2 * h + d) * M_PI / 4));
  law_true("the short way", m.m[(k + 1) % 3][(k + 1) % 3] * std::cos(h * M_PI / 4) + m.m[(k + 2) % 3][(k + 1) % 3] * std::sin(h * M_PI / 4) > 0);
  EQ("mean position", tv(t), mean(2));
}
