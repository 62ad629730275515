// Rotation matrices: algebra, elementary rotations, action on vectors.
#include "law.h"

LAW law_rot_default() { EQ("default is identity", Rotation(), mid()); }
LAW law_rot_product() {
  Rotation a = RO("a"), b = RO("b");
  EQ("matrix product", a * b, mmul(M(a), M(b)));
  Rotation c = a; Rotation &r = (c *= b);
  EQ("*= is *", c, a * b);
  law_true("*= returns the object", &r == &c);
}
LAW law_rot_mul_self() {
  Rotation a = RO("a"); Rotation c = a; c *= c;
  EQ("a *= a", c, mmul(M(a), M(a)));
}
LAW law_rot_assoc() {
  Rotation a = RO("a"), b = RO("b"), c = RO("c");
  EQ("(ab)c = a(bc)", (a * b) * c, a * (b * c));
}
LAW law_rot_identity() {
  Rotation a = RO("a");
  EQ("ea", Rotation() * a, a);
  EQ("ae", a * Rotation(), a);
}
LAW law_rot_transpose() {
  Rotation a = RO("a");
  EQ("transpose", a.transpose(), mtr(M(a)));
  EQ("free transpose", transpose(a), mtr(M(a)));
  EQ("involution", a.transpose().transpose(), a);
}
LAW law_rot_transpose_product() {
  Rotation a = RO("a"), b = RO("b");
  EQ("(ab)^T = b^T a^T", (a * b).transpose(), b.transpose() * a.transpose());
}
LAW law_rot_transpose_inverse() {
  Rotation a = anyR("a");
  EQ("a a^T = 1", a * a.transpose(), mid());
  EQ("a^T a = 1", a.transpose() * a, mid());
}
LAW law_rot_det() {
  Rotation a = RO("a");
  EQ("det", a.determinant(), mdet(M(a)));
  EQ("free det", determinant(a), mdet(M(a)));
}
LAW law_rot_det_rigid() { EQ("det of a rotation", anyR("a").determinant(), 1); }
LAW law_rot_elementary() {
  float t = law_in("t", 0);
  EQ("X", rotationFromRotX(t), mrx(t)); EQ("Rotation::X", Rotation::fromRotX(t), mrx(t));
  EQ("Y", rotationFromRotY(t), mry(t)); EQ("Rotation::Y", Rotation::fromRotY(t), mry(t));
  EQ("Z", rotationFromRotZ(t), mrz(t)); EQ("Rotation::Z", Rotation::fromRotZ(t), mrz(t));
}
static inline M3 diag(double a, double b, double c) { M3 r = mzero(); r.m[0][0] = a; r.m[1][1] = b; r.m[2][2] = c; return r; }
LAW law_rot_elementary_constants() {
  EQ("X(pi)", Rotation::fromRotXPi(), diag(1, -1, -1));
  EQ("Y(pi)", Rotation::fromRotYPi(), diag(-1, 1, -1));
  EQ("Z(pi)", Rotation::fromRotZPi(), diag(-1, -1, 1));
  M3 h = diag(0, 0, 1);
  h.m[0][1] = -1;
  h.m[1][0] = 1;
  EQ("Z(pi/2)", Rotation::fromRotZHalfPi(), h);
}
LAW law_rot_additive() {
  float s = law_in("s", 0), t = law_in("t", 0);
  EQ("X(s)X(t) = X(s+t)", rotationFromRotX(s) * rotationFromRotX(t), rotationFromRotX(s + t));
  EQ("Y(s)Y(t) = Y(s+t)", rotationFromRotY(s) * rotationFromRotY(t), rotationFromRotY(s + t));
  EQ("Z(s)Z(t) = Z(s+t)", rotationFromRotZ(s) * rotationFromRotZ(t), rotationFromRotZ(s + t));
}
LAW law_rot_tf_elementary() {
  float t = law_in("t", 0);
  V o = vec(0, 0, 0);
  EQ("X", transformFromRotX(t), mrx(t), o); EQ("Transform::X", Transform::fromRotX(t), mrx(t), o);
  EQ("Y", transformFromRotY(t), mry(t), o); EQ("Transform::Y", Transform::fromRotY(t), mry(t), o);
  EQ("Z", transformFromRotZ(t), mrz(t), o); EQ("Transform::Z", Transform::fromRotZ(t), mrz(t), o);
}
LAW law_rot_rpy() {
  Rotation3D w = W3("w");
  M3 r = mrpy(w.wx, w.wy, w.wz);
  EQ("rotationFrom3DRotation", rotationFrom3DRotation(w.wx, w.wy, w.wz), r);
  EQ("Rotation::from3DRotation", Rotation::from3DRotation(w.wx, w.wy, w.wz), r);
  EQ("transformFrom3DRotation", transformFrom3DRotation(w.wx, w.wy, w.wz), r, vec(0, 0, 0));
  EQ("Transform::from3DRotation", Transform::from3DRotation(w.wx, w.wy, w.wz), r, vec(0, 0, 0));
  EQ("transformFromRotation3D", transformFromRotation3D(w), r, vec(0, 0, 0));
}
LAW law_rot_rpy_position() {
  Position6D p = P6("p");
  M3 r = mrpy(p.wx, p.wy, p.wz);
  EQ("transformFromPosition6D", transformFromPosition6D(p), r, vec(p.x, p.y, p.z));
  EQ("transformFromPosition", transformFromPosition(p.x, p.y, p.z, p.wx, p.wy, p.wz), r, vec(p.x, p.y, p.z));
  EQ("Transform::fromPosition", Transform::fromPosition(p.x, p.y, p.z, p.wx, p.wy, p.wz), r, vec(p.x, p.y, p.z));
}
LAW law_rot_angle_axis() {
  float t = law_in("t", 0);
  V u = anyU("u");
  float x = (float)u.v[0], y = (float)u.v[1], z = (float)u.v[2];
  M3 r = mrod(t, x, y, z);
  EQ("rotationFromAngleDirection", rotationFromAngleDirection(t, x, y, z), r);
  EQ("Rotation::fromAngleDirection", Rotation::fromAngleDirection(t, x, y, z), r);
  EQ("rotationFromAngleDirection(Position3D)", rotationFromAngleDirection(t, Position3D(x, y, z)), r);
}
LAW law_rot_angle_axis_orthogonal() {
  float t = law_in("t", 0);
  V u = anyU("u");
  Rotation r = rotationFromAngleDirection(t, (float)u.v[0], (float)u.v[1], (float)u.v[2]);
  EQ("the result is orthogonal", r * r.transpose(), mid());
  EQ("the axis is fixed", v3(r * p3(u)), u);
  EQ("the trace gives the angle", r.r1_c1 + r.r2_c2 + r.r3_c3, 1 + 2 * std::cos(t));
}
LAW law_rot_angle_axis_guard() {
  float t = law_in("t", 0), x = law_in("u", 0), y = law_in("u", 1), z = law_in("u", 2);
  float n = x * x + y * y + z * z;
  law_throws_iff("a direction that is not a unit vector is refused", n > 1.00001f || n < 0.99999f);
  EQ("accepted directions", rotationFromAngleDirection(t, x, y, z).r1_c1, std::cos(t) + (1 - std::cos(t)) * x * x);
}
LAW law_rot_action() {
  Rotation a = RO("a");
  Position3D p = P3("p");
  Velocity3D v = V3("v");
  EQ("R*p", v3(a * p), mv(M(a), v3(p)));
  EQ("R*v", v3(a * v), mv(M(a), v3(v)));
  float x = p.x, y = p.y, z = p.z;
  applyRotation(a, x, y, z);
  EQ("applyRotation", vec(x, y, z), mv(M(a), v3(p)));
}
LAW law_rot_action_compose() {
  Rotation a = RO("a"), b = RO("b");
  Position3D p = P3("p");
  EQ("(ab)p = a(bp)", (a * b) * p, a * (b * p));
}
LAW law_rot_action_isometry() {
  Rotation a = anyR("a");
  Position3D p = P3("p"), q = P3("q");
  EQ("rotations preserve the dot product", (a * p).dotProduct(a * q), p.dotProduct(q));
}
LAW law_rot_action_cross() {
  Rotation a = anyR("a");
  Position3D p = P3("p"), q = P3("q");
  EQ("rotations preserve orientation", a * p.crossProduct(q), (a * p).crossProduct(a * q));
}
// validity predicate: accepts exactly what its defining conditions accept
LAW law_rot_isrotation() {
  Rotation a = anyR("a");
  float e = law_nonneg("e", 0);
  law_true("every rotation is a rotation", a.isRotation(e));
}
LAW law_rot_istransform() {
  Transform a = anyT("a");
  float e = law_nonneg("e", 0);
  law_true("every rigid transform is a transform", a.isTransform(e));
}
LAW law_rot_isrotation_scale() {
  float k = law_in("k", 0), e = 0.0001f;
  Rotation a;
  a.r1_c1 = k;
  law_true("a stretched axis is refused", !a.isRotation(e) == (std::fabs(k * k - 1) > e || std::fabs(k - 1) > e));
  Rotation b;
  b.r2_c2 = k;
  law_true("a stretched axis is refused (y)", !b.isRotation(e) == (std::fabs(k * k - 1) > e || std::fabs(k - 1) > e));
  Rotation c;
  c.r3_c3 = k;
  law_true("a stretched axis is refused (z)", !c.isRotation(e) == (std::fabs(k * k - 1) > e || std::fabs(k - 1) > e));
}
LAW law_rot_istransform_scale() {
  float k = law_in("k", 0), e = 0.0001f;
  Transform a;
  a.r1_c1 = k;
  law_true("a stretched axis is refused", !a.isTransform(e) == (std::fabs(k * k - 1) > e || std::fabs(k - 1) > e));
  Transform b;
  b.r2_c2 = k;
  law_true("a stretched axis is refused (y)", !b.isTransform(e) == (std::fabs(k * k - 1) > e || std::fabs(k - 1) > e));
  Transform c;
  c.r3_c3 = k;
  law_true("a stretched axis is refused (z)", !c.isTransform(e) == (std::fabs(k * k - 1) > e || std::fabs(k - 1) > e));
}
LAW law_rot_reflection_refused() {
  Rotation a = anyR("a");
  float e = 0.0001f;
  Rotation b = a; b.r1_c1 = -b.r1_c1; b.r2_c1 = -b.r2_c1; b.r3_c1 = -b.r3_c1;
  law_true("a reflection is not a rotation", !b.isRotation(e));
  Rotation c = a; c.r1_c2 = -c.r1_c2; c.r2_c2 = -c.r2_c2; c.r3_c2 = -c.r3_c2;
  law_true("a reflection is not a rotation (2)", !c.isRotation(e));
}
LAW law_rot_istransform_reflection_refused() {
  Transform a = anyT("a");
  float e = 0.0001f;
  Transform b = a; b.r1_c1 = -b.r1_c1; b.r2_c1 = -b.r2_c1; b.r3_c1 = -b.r3_c1;
  law_true("a reflection is not a transform", !b.isTransform(e));
}
// shear in each pair of axes is refused
LAW law_rot_shear_refused() {
  float k = law_in("k", 0), e = 0.0001f;
  law_assume(std::fabs(k) > 0.02f);
  Rotation a; a.r1_c2 = k; law_true("xy", !a.isRotation(e));
  Rotation b; b.r1_c3 = k; law_true("xz", !b.isRotation(e));
  Rotation c; c.r2_c3 = k; law_true("yz", !c.isRotation(e));
  Rotation d; d.r2_c1 = k; law_true("yx", !d.isRotation(e));
  Transform ta; ta.r1_c2 = k; law_true("t xy", !ta.isTransform(e));
  Transform tb; tb.r1_c3 = k; law_true("t xz", !tb.isTransform(e));
  Transform tc; tc.r2_c3 = k; law_true("t yz", !tc.isTransform(e));
  Transform td; td.r3_c1 = k; law_true("t zx", !td.isTransform(e));
}
// orthonormalisation
LAW law_rot_normalize_rotation() {
  Rotation a = anyR("a");
  Rotation b = a; normalizeRotation(b);
  EQ("normalising a rotation changes nothing", b, a);
  Rotation c = a; c.normalizeRotation();
  EQ("member", c, a);
}
LAW law_rot_normalize_scaled() {
  // columns scaled by positive factors are recovered
  Rotation a = anyR("a");
  float k1 = law_range("k", 1, 0.01, 100), k2 = law_range("k", 2, 0.01, 100), k3 = law_range("k", 3, 0.01, 100);
  Rotation b = a;
  b.r1_c1 *= k1; b.r2_c1 *= k1; b.r3_c1 *= k1;
  b.r1_c2 *= k2; b.r2_c2 *= k2; b.r3_c2 *= k2;
  b.r1_c3 *= k3; b.r2_c3 *= k3; b.r3_c3 *= k3;
  b.normalizeRotation();
  EQ("positively scaled columns are recovered", b, a);
}
LAW law_rot_normalize_tf_scaled() {
  Transform a = anyT("a");
  float k1 = law_range("k", 1, 0.01, 100), k2 = law_range("k", 2, 0.01, 100), k3 = law_range("k", 3, 0.01, 100);
  Transform b = a;
  b.r1_c1 *= k1; b.r2_c1 *= k1; b.r3_c1 *= k1;
  b.r1_c2 *= k2; b.r2_c2 *= k2; b.r3_c2 *= k2;
  b.r1_c3 *= k3; b.r2_c3 *= k3; b.r3_c3 *= k3;
  b.normalizeTransform();
  EQ("positively scaled columns are recovered, translation untouched", b, a);
}
LAW law_rot_normalize_sheared() {
  // x column free, y column sheared along z: Gram-Schmidt from z
  Rotation a = anyR("a");
  float s = law_in("s", 0);
  Rotation b = a;
  b.r1_c1 = law_in("j", 0); b.r2_c1 = law_in("j", 1); b.r3_c1 = law_in("j", 2);
  b.r1_c2 += s * b.r1_c3; b.r2_c2 += s * b.r2_c3; b.r3_c2 += s * b.r3_c3;
  Transform t = asT(M(b), vec(0, 0, 0));
  b.normalizeRotation();
  EQ("the z axis and the yz plane are kept", b, a);
  t.normalizeTransform();
  EQ("same for transforms", M(t), M(a));
}
LAW law_rot_normalize_degenerate() {
  Rotation b = RO("b");
  b.r1_c3 = b.r2_c3 = b.r3_c3 = 0;
  b.normalizeRotation();
  EQ("a null z column gives identity", b, mid());
  Rotation c = anyR("c");
  float k = law_in("k", 0);
  c.r1_c2 = k * c.r1_c3; c.r2_c2 = k * c.r2_c3; c.r3_c2 = k * c.r3_c3;
  c.normalizeRotation();
  EQ("parallel y and z columns give identity", c, mid());
}
LAW law_rot_normalize_tf_degenerate() {
  Transform b = TR("b");
  V t = tv(b);
  b.r1_c3 = b.r2_c3 = b.r3_c3 = 0;
  b.normalizeTransform();
  EQ("a null z column gives identity, translation kept", b, mid(), t);
  Transform c = anyT("c");
  V tc = tv(c);
  float k = law_in("k", 0);
  c.r1_c2 = k * c.r1_c3; c.r2_c2 = k * c.r2_c3; c.r3_c2 = k * c.r3_c3;
  c.normalizeTransform();
  EQ("parallel y and z columns give identity, translation kept", c, mid(), tc);
}
LAW law_rot_from_axes() {
  Rotation a = anyR("a");
  Position3D x(a.r1_c1, a.r2_c1, a.r3_c1), y(a.r1_c2, a.r2_c2, a.r3_c2), z(a.r1_c3, a.r2_c3, a.r3_c3);
  EQ("XY", rotationFromAxesXY(x, y), a);
  EQ("XZ", rotationFromAxesXZ(x, z), a);
  EQ("YZ", rotationFromAxesYZ(y, z), a);
  EQ("XYZ", rotationFromAxesXYZ(x, y, z), a);
}
