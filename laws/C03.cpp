// Conversions between orientation representations describe one orientation.
#include "law.h"
#define PIM 3.1415926
#define HPM 1.5707963

LAW law_conv_quat_to_matrix() {
  Quaternion q = anyQ("q");
  M3 r = mquat(q.w, q.x, q.y, q.z);
  EQ("rotationFromQuaternion(q)", rotationFromQuaternion(q), r);
  EQ("rotationFromQuaternion(a,b,c,d)", rotationFromQuaternion(q.w, q.x, q.y, q.z), r);
  EQ("Rotation::fromQuaternion", Rotation::fromQuaternion(q.w, q.x, q.y, q.z), r);
  EQ("transformFromQuaternion", transformFromQuaternion(q), r, vec(0, 0, 0));
  Rotation o = RO("junk");
  rotationFromQuaternion(q, o);
  EQ("rotationFromQuaternion(out)", o, r);
}
LAW law_conv_rpy_to_quat() {
  Rotation3D w = W3("w");
  Quaternion q = quaternionFromRotation3D(w);
  EQ("the quaternion of three angles is unit", q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z, 1);
  EQ("quaternion and matrix of the same angles agree", rotationFromQuaternion(q), rotationFrom3DRotation(w.wx, w.wy, w.wz));
  Quaternion o = QU("junk");
  quaternionFromRotation3D(w, o);
  EQ("out variant", o, q);
}
LAW law_conv_p6_to_quat() {
  Position6D p = P6("p");
  Quaternion q = QU("junk");
  Position3D t = P3("junk");
  quaternionPosition3DFromPosition6D(p, q, t);
  EQ("quaternion part", q, quaternionFromRotation3D(Rotation3D(p.wx, p.wy, p.wz)));
  EQ("position part", t, Position3D(p.x, p.y, p.z));
}
LAW law_conv_angle_axis_to_quat() {
  float t = law_in("t", 0);
  V u = anyU("u");
  float x = (float)u.v[0], y = (float)u.v[1], z = (float)u.v[2];
  Quaternion q = quaternionFromAngleAndAxisRotation(t, x, y, z);
  EQ("quaternion and matrix of one angle-axis agree", rotationFromQuaternion(q), mrod(t, x, y, z));
  EQ("Quaternion::fromAngleAndAxisRotation", Quaternion::fromAngleAndAxisRotation(t, x, y, z), q);
}
LAW law_conv_quat_product() {
  Quaternion p = anyQ("p"), q = anyQ("q");
  EQ("matrix of a product is the product of matrices", rotationFromQuaternion(p * q), rotationFromQuaternion(p) * rotationFromQuaternion(q));
  EQ("matrix of an inverse is the transpose", rotationFromQuaternion(p.inverse()), rotationFromQuaternion(p).transpose());
}
LAW law_conv_quat_action() {
  Quaternion q = anyQ("q");
  Position3D p = P3("p");
  EQ("q*p is R(q)*p", q * p, rotationFromQuaternion(q) * p);
}
LAW law_conv_rpy_roundtrip_rotation() {
  Rotation3D w(law_range("w", 0, -PIM, PIM), law_range("w", 1, -HPM, HPM), law_range("w", 2, -PIM, PIM));
  EQ("angles -> matrix -> angles", rotation3DFromRotation(rotationFrom3DRotation(w.wx, w.wy, w.wz)), w);
  EQ("angles -> transform -> angles", rotation3DFromTransform(transformFromRotation3D(w)), w);
}
LAW law_conv_rpy_roundtrip_p6() {
  Position6D p = P6("p");
  p.wx = law_range("w", 0, -PIM, PIM); p.wy = law_range("w", 1, -HPM, HPM); p.wz = law_range("w", 2, -PIM, PIM);
  EQ("P6 -> transform -> P6", position6DFromTransform(transformFromPosition6D(p)), p);
  Position6D o = P6("junk");
  position6DFromTransformInPlace(transformFromPosition6D(p), o);
  EQ("in-place variant", o, p);
}
LAW law_conv_quat_to_rpy() {
  Quaternion q = QU("q");
  EQ("angles of a quaternion are those of its matrix", rotation3DFromQuaternion(q), rotation3DFromRotation(rotationFromQuaternion(q)));
  Rotation3D o = W3("junk");
  rotation3DFromQuaternion(q, o);
  EQ("out variant", o, rotation3DFromQuaternion(q));
}
// the extracted angles rebuild the matrix (any proper rotation away from cos(wy)=0)
LAW law_conv_extract_rebuild() {
  M3 m = mrpy(law_in("m", 10), law_range("m", 11, -HPM, HPM), law_in("m", 12));
  Rotation r = asR(m);
  Rotation3D w = rotation3DFromRotation(r);
  EQ("angles of a matrix rebuild it", rotationFrom3DRotation(w.wx, w.wy, w.wz), r);
}
LAW law_conv_extract_siblings() {
  Rotation r = RO("r");
  Position3D p = P3("p");
  Transform t = transformFromRotationPosition3D(r, p);
  Rotation3D a = rotation3DFromRotation(r), b = rotation3DFromTransform(t);
  Position6D c = position6DFromTransform(t);
  EQ("rotation3DFromTransform", b, a);
  EQ("position6DFromTransform angles", Rotation3D(c.wx, c.wy, c.wz), a);
  EQ("position6DFromTransform position", Position3D(c.x, c.y, c.z), p);
  EQ("pose2DFromTransform angle", pose2DFromTransform(t).theta, a.wz);
}
LAW law_conv_transform_parts() {
  Rotation r = RO("r");
  Position3D p = P3("p");
  V o = vec(0, 0, 0);
  EQ("from rotation and position", transformFromRotationPosition3D(r, p), M(r), v3(p));
  EQ("from rotation and coordinates", transformFromRotationPosition3D(r, p.x, p.y, p.z), M(r), v3(p));
  EQ("from rotation", transformFromRotation(r), M(r), o);
  EQ("from position", transformFromPosition3D(p), mid(), v3(p));
  Transform t = TR("t"), a = TR("junk"), b = TR("junk");
  transformFromRotationInPlace(r, a);
  EQ("from rotation, in place", M(a), M(r));
  transformFromPosition3DInPlace(p, b);
  EQ("from position, in place", tv(b), v3(p));
  EQ("rotation part", rotationFromTransform(t), M(t));
  Rotation q = RO("junk2");
  rotationFromTransformInPlace(t, q);
  EQ("rotation part, in place", q, M(t));
  EQ("position part", v3(position3DFromTransform(t)), tv(t));
  Position3D z = P3("junk");
  position3DFromTransformInPlace(t, z);
  EQ("position part, in place", v3(z), tv(t));
}
LAW law_conv_displacement() {
  Displacement d(P3("p"), anyQ("q"));
  EQ("transform of a displacement", transformFromDisplacement(d), mquat(d.Q.w, d.Q.x, d.Q.y, d.Q.z), v3(d.P));
  Transform t = TR("t");
  Displacement e = displacementFromTransform(t);
  EQ("position of a displacement", e.P, position3DFromTransform(t));
  EQ("orientation of a displacement", e.Q, quaternionFromTransform(t));
}
LAW law_conv_displacement_product() {
  Displacement a(P3("pa"), anyQ("qa")), b(P3("pb"), anyQ("qb"));
  EQ("product of displacements is the product of transforms", transformFromDisplacement(a * b), transformFromDisplacement(a) * transformFromDisplacement(b));
}
LAW law_conv_displacement_mul_assign() {
  Displacement a(P3("pa"), QU("qa")), b(P3("pb"), QU("qb"));
  Displacement c = a; Displacement &r = (c *= b);
  Displacement d = a * b;
  EQ("*= position", c.P, d.P);
  EQ("*= orientation", c.Q, d.Q);
  law_true("*= returns the object", &r == &c);
}
LAW law_conv_quat_from_transform_axes() {
  float h = law_range("h", 0, 1e-6, HPM), g = -law_range("g", 0, 1e-6, HPM);
  EQ("X", quaternionFromTransform(transformFromRotX(2 * h)), Quaternion(std::cos(h), std::sin(h), 0, 0));
  EQ("Y", quaternionFromTransform(transformFromRotY(2 * h)), Quaternion(std::cos(h), 0, std::sin(h), 0));
  EQ("Z", quaternionFromTransform(transformFromRotZ(2 * h)), Quaternion(std::cos(h), 0, 0, std::sin(h)));
  EQ("X", quaternionFromTransform(transformFromRotX(2 * g)), Quaternion(std::cos(g), std::sin(g), 0, 0));
  EQ("Y", quaternionFromTransform(transformFromRotY(2 * g)), Quaternion(std::cos(g), 0, std::sin(g), 0));
  EQ("Z", quaternionFromTransform(transformFromRotZ(2 * g)), Quaternion(std::cos(g), 0, 0, std::sin(g)));
  EQ("no rotation", quaternionFromTransform(Transform()), Quaternion(1, 0, 0, 0));
}
// rotation of 2h about a unit axis in a coordinate plane or with all components positive
static inline void axis_case(double h, double x, double y, double z) {
  Quaternion r = quaternionFromTransform(asT(mrod(2 * h, x, y, z), vec(0, 0, 0)));
  EQ("w", r.w, std::cos(h));
  EQ("x", r.x, std::sin(h) * x);
  EQ("y", r.y, std::sin(h) * y);
  EQ("z", r.z, std::sin(h) * z);
}
LAW law_conv_quat_from_transform_xy() {
  double h = law_range("h", 0, 1e-6, HPM), a = law_range("a", 0, 1e-6, HPM);
  axis_case(h, std::cos(a), std::sin(a), 0);
}
LAW law_conv_quat_from_transform_yz() {
  double h = law_range("h", 0, 1e-6, HPM), a = law_range("a", 0, 1e-6, HPM);
  axis_case(h, 0, std::cos(a), std::sin(a));
}
LAW law_conv_quat_from_transform_zx() {
  double h = law_range("h", 0, 1e-6, HPM), a = law_range("a", 0, 1e-6, HPM);
  axis_case(h, std::sin(a), 0, std::cos(a));
}
LAW law_conv_quat_from_transform_neg() {
  double h = law_range("h", 0, 1e-6, HPM), a = law_range("a", 0, 1e-6, HPM);
  axis_case(h, -std::cos(a), -std::sin(a), 0);
  axis_case(h, 0, -std::cos(a), -std::sin(a));
  axis_case(h, -std::sin(a), 0, -std::cos(a));
}
#define OCTANT(N, X, Y, Z) LAW law_conv_quat_from_transform_##N() { \
  double h = law_range("h", 0, 1e-6, HPM), a = law_range("a", 0, 1e-6, HPM), b = law_range("b", 0, 1e-6, HPM); \
  axis_case(h, X std::cos(a) * std::cos(b), Y std::cos(a) * std::sin(b), Z std::sin(a)); }
OCTANT(ppp, +, +, +) OCTANT(ppm, +, +, -) OCTANT(pmp, +, -, +) OCTANT(pmm, +, -, -)
OCTANT(mpp, -, +, +) OCTANT(mpm, -, +, -) OCTANT(mmp, -, -, +) OCTANT(mmm, -, -, -)
