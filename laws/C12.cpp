// Axes: projection of a rotation about an axis, orthogonal bases, matrices from axes.
#include "law.h"
static inline V unit(const Position3D &p) { double n = std::sqrt(dot(v3(p), v3(p))); return vec(p.x / n, p.y / n, p.z / n); }
static inline Position3D col(const M3 &m, int j) { return p3(vec(m.m[0][j], m.m[1][j], m.m[2][j])); }
// The axis is k*(x, y, z); within 1e-4 of the z direction the basis is only
// orthogonal to that tolerance, so the exact statement is made away from it.
static inline void ortho(double k, double x, double y, double z) {
  Position3D a = p3(vec(k * x, k * y, k * z));
  Transform t = orthogonalSpace(a);
  EQ("third column is the axis", vec(t.r1_c3, t.r2_c3, t.r3_c3), vec(x, y, z));
  EQ("orthonormal", mmul(mtr(M(t)), M(t)), mid());
  law_eq("direct", mdet(M(t)), 1);
  EQ("no translation", tv(t), vec(0, 0, 0));
  Transform o = TR("junk"), j = o;
  orthogonalSpace(a, o);
  EQ("out variant", M(o), M(t));
  EQ("out variant keeps the position", tv(o), tv(j));
}
LAW law_ortho_x() {
  double k = law_range("k", 0, 1e-6, 1e6), a = law_range("a", 0, -1.5, 1.5), b = law_range("b", 0, -1.5, 1.5);
  ortho(k, std::cos(a) * std::cos(b), std::cos(a) * std::sin(b), std::sin(a));
}
LAW law_ortho_mx() {
  double k = law_range("k", 0, 1e-6, 1e6), a = law_range("a", 0, -1.5, 1.5), b = law_range("b", 0, -1.5, 1.5);
  ortho(k, -std::cos(a) * std::cos(b), std::cos(a) * std::sin(b), std::sin(a));
}
LAW law_ortho_y() {
  double k = law_range("k", 0, 1e-6, 1e6), a = law_range("a", 0, -1.5, 1.5);
  ortho(k, 0, std::cos(a), std::sin(a));
}
LAW law_ortho_my() {
  double k = law_range("k", 0, 1e-6, 1e6), a = law_range("a", 0, -1.5, 1.5);
  ortho(k, 0, -std::cos(a), std::sin(a));
}
LAW law_ortho_z() { double k = law_range("k", 0, 1e-6, 1e6); ortho(k, 0, 0, 1); }
LAW law_ortho_mz() { double k = law_range("k", 0, 1e-6, 1e6); ortho(k, 0, 0, -1); }
LAW law_ortho_null() {
  law_throws_iff("null axis", true);
  orthogonalSpace(Position3D(0, 0, 0));
}
LAW law_axes_xy() { M3 m = anyM("m"); EQ("XY", rotationFromAxesXY(col(m, 0), col(m, 1)), m); }
LAW law_axes_xz() { M3 m = anyM("m"); EQ("XZ", rotationFromAxesXZ(col(m, 0), col(m, 2)), m); }
LAW law_axes_yz() { M3 m = anyM("m"); EQ("YZ", rotationFromAxesYZ(col(m, 1), col(m, 2)), m); }
LAW law_axes_xyz() { M3 m = anyM("m"); EQ("XYZ", rotationFromAxesXYZ(col(m, 0), col(m, 1), col(m, 2)), m); }
LAW law_proj_null_axis() {
  Rotation r = RO("r");
  law_throws_iff("null axis", true);
  axisRotationProjectionInPlace(Position3D(0, 0, 0), r);
}
LAW law_proj_null_axis_transform() {
  Transform r = TR("r");
  law_throws_iff("null axis", true);
  axisRotationProjectionInPlace(Position3D(0, 0, 0), r);
}
#define PROJ(N, X, Y, Z, MR) \
  LAW law_proj_fixed_##N() { \
    float t = law_range("t", 0, -3.1415926, 3.1415926), k = law_range("k", 0, 0.0001, 1e6); \
    Rotation r = asR(MR(t)), s = r; \
    axisRotationProjectionInPlace(Position3D(X * k, Y * k, Z * k), s); \
    EQ("a rotation about the axis is kept", s, r); } \
  LAW law_proj_about_##N() { \
    Rotation r = anyR("r"); \
    float k = law_range("k", 0, 0.0001, 1e6); \
    Rotation s = r; \
    axisRotationProjectionInPlace(Position3D(X * k, Y * k, Z * k), s); \
    EQ("the axis is fixed", mv(M(s), vec(X, Y, Z)), vec(X, Y, Z)); \
    EQ("orthonormal", mmul(M(s), mtr(M(s))), mid()); \
    law_eq("direct", mdet(M(s)), 1); } \
  LAW law_proj_siblings_##N() { \
    Rotation r = anyR("r"); \
    V p = v3(P3("p")); \
    Position3D ax(X, Y, Z); \
    Rotation s = r; \
    axisRotationProjectionInPlace(ax, s); \
    EQ("value variant", axisRotationProjection(ax, r), s); \
    Transform t = asT(M(r), p), u = t; \
    axisRotationProjectionInPlace(ax, u); \
    EQ("transform, in place", M(u), M(s)); \
    EQ("position is kept in place", tv(u), p); \
    Transform w = axisRotationProjection(ax, t); \
    EQ("transform", M(w), M(s)); \
    EQ("position is kept", tv(w), p); }
PROJ(x, 1, 0, 0, mrx)
PROJ(y, 0, 1, 0, mry)
PROJ(z, 0, 0, 1, mrz)
// axes out of the three coordinate axes, with rational direction (X, Y, Z) / N
// the turn of t about (x, y, z) / n, whole numbers with x^2 + y^2 + z^2 = n^2
static M3 mturn(double t, double x, double y, double z, double n) {
  double c = std::cos(t), s = n * std::sin(t), k = 1 - c, q = n * n;
  double e[3][3] = {{q * c + x * x * k, x * y * k - z * s, x * z * k + y * s}, {x * y * k + z * s, q * c + y * y * k, y * z * k - x * s}, {x * z * k - y * s, y * z * k + x * s, q * c + z * z * k}};
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = e[i][j] / q;
  return r; }
#define PROJ2(N, X, Y, Z, L) \
  LAW law_proj_fixed_##N() { \
    float t = law_range("t", 0, -3.1415926, 3.1415926), k = law_range("k", 0, 0.0001, 1e6); \
    Rotation r = asR(mturn(t, X, Y, Z, L)), s = r; \
    axisRotationProjectionInPlace(Position3D(X * k, Y * k, Z * k), s); \
    EQ("a rotation about the axis is kept", s, r); } \
  LAW law_proj_fixed_tf_##N() { \
    float t = law_range("t", 0, -3.1415926, 3.1415926), k = law_range("k", 0, 0.0001, 1e6); \
    Rotation r = asR(mturn(t, X, Y, Z, L)); \
    V p = v3(P3("p")); \
    Transform s = asT(M(r), p); \
    axisRotationProjectionInPlace(Position3D(X * k, Y * k, Z * k), s); \
    EQ("a rotation about the axis is kept", M(s), M(r)); \
    EQ("and the position", tv(s), p); }
PROJ2(xy, 3, 4, 0, 5.0)
PROJ2(yz, 0, 3, -4, 5.0)
PROJ2(zx, -4, 0, 3, 5.0)
// the turn of cosine 3/5 and sine 4/5 about (2, 1, 2) / 3
static M3 mturn345() {
  double z[3] = {2, 1, 2};
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double e = z[i] * z[j] * 2 + (i == j ? 27 : 0);
    if (i != j) e += ((j - i + 3) % 3 == 1 ? -12 : 12) * z[3 - i - j];
    r.m[i][j] = e / 45; }
  return r; }
LAW law_proj_fixed_xyz() {
  float k = law_range("k", 0, 0.0001, 1e6);
  Rotation r = asR(mturn345()), s = r;
  axisRotationProjectionInPlace(Position3D(2 * k, k, 2 * k), s);
  EQ("a rotation about the axis is kept", s, r); }
LAW law_proj_fixed_tf_xyz() {
  float k = law_range("k", 0, 0.0001, 1e6);
  Rotation r = asR(mturn345());
  V p = v3(P3("p"));
  Transform s = asT(M(r), p);
  axisRotationProjectionInPlace(Position3D(2 * k, k, 2 * k), s);
  EQ("a rotation about the axis is kept", M(s), M(r));
  EQ("and the position", tv(s), p); }
LAW law_point_mass_inertia() {
  float m = law_in("m", 0);
  Position3D p = P3("p");
  std::vector<float> v(3, 7.0f);
  pointMassRotationalInertia(m, p, v);
  law_eqi("size", v.size(), 9);
  double s = dot(v3(p), v3(p));
  double c[3] = {p.x, p.y, p.z};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    law_eq("m (|p|^2 1 - p p^T)", v[3 * i + j], m * ((i == j ? s : 0) - c[i] * c[j]));
}
