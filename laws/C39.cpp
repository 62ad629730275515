// Roots and arc cosines of orientations which are exact only up to rounding.
// The inputs are not assumed orthonormal: they range over everything within 1e-3 of it
// (over the half spaces that every rotation matrix lies in).
#include "law.h"
#include <stdexcept>
static float near1(const char *n, int i) { return law_range(n, i, -1.001, 1.001); }
template <class M> static void entries(M &m) {
  m.r1_c1 = near1("r", 0); m.r1_c2 = near1("r", 1); m.r1_c3 = near1("r", 2);
  m.r2_c1 = near1("r", 3); m.r2_c2 = near1("r", 4); m.r2_c3 = near1("r", 5);
  m.r3_c1 = near1("r", 6); m.r3_c2 = near1("r", 7); m.r3_c3 = near1("r", 8);
  // 4 w^2, 4 x^2, 4 y^2, 4 z^2 of the quaternion
  law_assume(1.001 + m.r1_c1 + m.r2_c2 + m.r3_c3 >= 0);
  law_assume(1.001 + m.r1_c1 - m.r2_c2 - m.r3_c3 >= 0);
  law_assume(1.001 - m.r1_c1 + m.r2_c2 - m.r3_c3 >= 0);
  law_assume(1.001 - m.r1_c1 - m.r2_c2 + m.r3_c3 >= 0);
}
static Transform T() { Transform t; entries(t); t.r1_c4 = law_in("p", 0); t.r2_c4 = law_in("p", 1); t.r3_c4 = law_in("p", 2); return t; }
LAW law_dom_quaternion_from_matrix() {
  Transform t = T();
  law_domain();
  Quaternion q = quaternionFromTransform(t);
  law_touch(&q);
}
LAW law_dom_displacement() {
  Transform t = T();
  law_domain();
  Displacement q = displacementFromTransform(t);
  law_touch(&q);
}
LAW law_dom_logarithm() {
  Transform t = T();
  law_domain();
  Velocity6D q = transformLogarithm(t);
  law_touch(&q);
}
LAW law_dom_normalize() {
  Transform t = T();
  Rotation r;
  entries(r);
  law_domain();
  normalizeTransform(t);
  normalizeRotation(r);
  law_touch(&t);
  law_touch(&r);
}
LAW law_dom_rpy() {
  Transform t = T();
  Rotation r;
  entries(r);
  law_domain();
  Rotation3D a = rotation3DFromTransform(t), b = rotation3DFromRotation(r);
  Position6D c = position6DFromTransform(t);
  law_touch(&a);
  law_touch(&b);
  law_touch(&c);
}
LAW law_dom_angle_axis() {
  Quaternion q;
  q.w = law_in("q", 0); q.x = law_in("q", 1); q.y = law_in("q", 2); q.z = law_in("q", 3);
  law_assume(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z > 0.25);
  law_domain();
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(q, a, x, y, z);
  float o[4] = {a, x, y, z};
  law_touch(o);
}
// around the axes of coordinates (of any length)
static void axis(int k) {
  Transform t = T();
  Rotation r;
  entries(r);
  float l = law_in("l", 0);
  Position3D u(k == 0 ? l : 0.0f, k == 1 ? l : 0.0f, k == 2 ? l : 0.0f);
  law_domain_div();
  try { axisRotationProjectionInPlace(u, t); } catch (const std::exception &) {}
  try { axisRotationProjectionInPlace(u, r); } catch (const std::exception &) {}
  law_touch(&t);
  law_touch(&r);
}
LAW law_dom_axis_projection_x() { axis(0); }
LAW law_dom_axis_projection_y() { axis(1); }
LAW law_dom_axis_projection_z() { axis(2); }
// and around axes with one null component, where it may have to refuse
static void plane(float x, float y, float z) {
  Transform t = T();
  Rotation r;
  entries(r);
  float l = law_in("l", 0);
  Position3D u(x * l, y * l, z * l);
  law_domain();
  try { axisRotationProjectionInPlace(u, t); } catch (const std::exception &) {}
  try { axisRotationProjectionInPlace(u, r); } catch (const std::exception &) {}
  law_touch(&t);
  law_touch(&r);
}
LAW law_dom_axis_projection_xy() { plane(3, 4, 0); }
LAW law_dom_axis_projection_yz() { plane(0, 3, 4); }
LAW law_dom_axis_projection_zx() { plane(4, 0, 3); }
LAW law_dom_axis_projection_xyz() { plane(2, 1, 2); }
// a few matrices with entries which are off by rounding
static void nearly(int k) {
  float e = law_range("e", 0, -1e-6, 1e-6), f = law_range("e", 1, -1e-6, 1e-6), g = law_range("e", 2, -1e-6, 1e-6);
  Transform t;
  t.r1_c1 = k == 0 || k == 1 ? 1 + e : -1 + e;
  t.r2_c2 = k == 0 || k == 2 ? 1 + f : -1 + f;
  t.r3_c3 = k == 0 || k == 3 ? 1 + g : -1 + g;
  t.r3_c2 = law_range("e", 3, -1e-6, 1e-6);
  t.r1_c2 = t.r1_c3 = t.r2_c1 = t.r2_c3 = t.r3_c1 = 0;
  law_domain();
  Quaternion q = quaternionFromTransform(t);
  Velocity6D v = transformLogarithm(t);
  Rotation3D a = rotation3DFromTransform(t);
  law_touch(&q);
  law_touch(&v);
  law_touch(&a);
}
LAW law_dom_near_identity() { nearly(0); }
LAW law_dom_near_half_x() { nearly(1); }
LAW law_dom_near_half_y() { nearly(2); }
LAW law_dom_near_half_z() { nearly(3); }
// lengths and distances of whatever
LAW law_dom_norms() {
  law_domain();
  float s[] = {norm(P2("a")), norm(P3("a")), norm(P6("a")), Q2("a").norm(), norm(V3("a")), norm(V6("a")), norm(W3("a")), norm(QU("a")),
               distance(P2("a"), P2("b")), distance(P3("a"), P3("b")), distance(P6("a"), P6("b")), distance(Q2("a"), Q2("b"))};
  Transform t = TR("t"), u = TR("u");
  float d = transformDistance(t, u);
  law_touch(s);
  law_touch(&d);
}
// ---- where denominators vanish or coincide: finite results --------------------------------
static void FIN(const char *n, const Transform &t) {
  law_finite(n, t.r1_c1); law_finite(n, t.r1_c2); law_finite(n, t.r1_c3); law_finite(n, t.r1_c4);
  law_finite(n, t.r2_c1); law_finite(n, t.r2_c2); law_finite(n, t.r2_c3); law_finite(n, t.r2_c4);
  law_finite(n, t.r3_c1); law_finite(n, t.r3_c2); law_finite(n, t.r3_c3); law_finite(n, t.r3_c4);
}
static void FIN(const char *n, const Quaternion &q) { law_finite(n, q.w); law_finite(n, q.x); law_finite(n, q.y); law_finite(n, q.z); }
static void FIN(const char *n, const Velocity6D &v) {
  law_finite(n, v.xd); law_finite(n, v.yd); law_finite(n, v.zd); law_finite(n, v.wxd); law_finite(n, v.wyd); law_finite(n, v.wzd); }
static void FIN(const char *n, const Rotation3D &v) { law_finite(n, v.wx); law_finite(n, v.wy); law_finite(n, v.wz); }
static void FIN(const char *n, const Position6D &v) {
  law_finite(n, v.x); law_finite(n, v.y); law_finite(n, v.z); law_finite(n, v.wx); law_finite(n, v.wy); law_finite(n, v.wz); }
static void FIN(const char *n, const Rotation &t) { FIN(n, transformFromRotation(t)); }
static void angles(const Quaternion &q) {
  float a, x, y, z;
  angleAndAxisRotationFromQuaternion(q, a, x, y, z);
  law_finite("angle", a); law_finite("axis", x); law_finite("axis", y); law_finite("axis", z);
}
static void every(Transform t) {
  const Quaternion q = quaternionFromTransform(t);
  FIN("quaternion", q);
  const Displacement d = displacementFromTransform(t);
  FIN("displacement", d.Q);
  angles(q);
  FIN("logarithm", transformLogarithm(t));
  FIN("angles", rotation3DFromTransform(t));
  FIN("angles", rotation3DFromRotation(rotationFromTransform(t)));
  FIN("angles", rotation3DFromQuaternion(q));
  FIN("angles", position6DFromTransform(t));
  FIN("mean", transformMean(t, t, 0.5f));
  FIN("mean", transformMean(Transform(), t, 0.5f));
  Rotation r = rotationFromTransform(t);
  normalizeTransform(t);
  FIN("normalised", t);
  normalizeRotation(r);
  FIN("normalised", r);
  law_finite("distance", transformDistance(t, Transform()));
}
// the rotations of the cube: row i has s[i] in column c[i]
static void cube(int c0, int c1, int c2, float s0, float s1, float s2) {
  Transform t;
  t.r1_c1 = c0 == 0 ? s0 : 0; t.r1_c2 = c0 == 1 ? s0 : 0; t.r1_c3 = c0 == 2 ? s0 : 0;
  t.r2_c1 = c1 == 0 ? s1 : 0; t.r2_c2 = c1 == 1 ? s1 : 0; t.r2_c3 = c1 == 2 ? s1 : 0;
  t.r3_c1 = c2 == 0 ? s2 : 0; t.r3_c2 = c2 == 1 ? s2 : 0; t.r3_c3 = c2 == 2 ? s2 : 0;
  t.r1_c4 = law_in("p", 0); t.r2_c4 = law_in("p", 1); t.r3_c4 = law_in("p", 2);
  every(t);
}
// even permutations take an even number of minus signs, odd ones an odd number
#define EVEN(n, a, b, c) LAW law_fin_cube_##n##0() { cube(a, b, c, 1, 1, 1); } LAW law_fin_cube_##n##1() { cube(a, b, c, 1, -1, -1); } \
  LAW law_fin_cube_##n##2() { cube(a, b, c, -1, 1, -1); } LAW law_fin_cube_##n##3() { cube(a, b, c, -1, -1, 1); }
#define ODD(n, a, b, c) LAW law_fin_cube_##n##0() { cube(a, b, c, -1, -1, -1); } LAW law_fin_cube_##n##1() { cube(a, b, c, -1, 1, 1); } \
  LAW law_fin_cube_##n##2() { cube(a, b, c, 1, -1, 1); } LAW law_fin_cube_##n##3() { cube(a, b, c, 1, 1, -1); }
EVEN(id_, 0, 1, 2) EVEN(up_, 1, 2, 0) EVEN(down_, 2, 0, 1) ODD(xy_, 1, 0, 2) ODD(zx_, 2, 1, 0) ODD(yz_, 0, 2, 1)
// the quaternions of no rotation and of half turns
static void quat(int k) {
  float s = law_in("s", 0);
  law_assume(s > 0.5f || s < -0.5f);
  Quaternion q(k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0, k == 3 ? s : 0);
  angles(q);
  FIN("normalised", q.normalize());
  FIN("matrix", transformFromQuaternion(q.normalize()));
  FIN("angles", rotation3DFromQuaternion(q.normalize()));
}
LAW law_fin_quaternion_w() { quat(0); }
LAW law_fin_quaternion_x() { quat(1); }
LAW law_fin_quaternion_y() { quat(2); }
LAW law_fin_quaternion_z() { quat(3); }
// no motion, and motions without rotation
LAW law_fin_exponential() {
  Velocity6D v;
  v.xd = law_in("v", 0); v.yd = law_in("v", 1); v.zd = law_in("v", 2);
  FIN("exponential", velocityExponential(v));
}
