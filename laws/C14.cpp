// Conversions between positions, poses, velocities and transforms: every part is
// carried over, everything else is zero, and output-argument forms write it all.
#include "vecs.h"
#include <almath/types/alaxismask.h>
#define PIM 3.1415926
LAW law_part_position_from_6d() {
  Position6D p = P6("p");
  EQ("position", position3DFromPosition6D(p), Position3D(p.x, p.y, p.z));
}
LAW law_part_6d_from_position() {
  Position3D p = P3("p");
  Position6D o = P6("junk");
  EQ("value", position6DFromPosition3D(p), Position6D(p.x, p.y, p.z, 0, 0, 0));
  position6DFromPosition3DInPlace(p, o);
  EQ("in place", o, Position6D(p.x, p.y, p.z, 0, 0, 0));
}
LAW law_part_6d_from_velocity() {
  Velocity6D v = V6("v");
  EQ("components", position6DFromVelocity6D(v), Position6D(v.xd, v.yd, v.zd, v.wxd, v.wyd, v.wzd));
}
LAW law_part_quaternion_position() {
  Position6D p = P6("p");
  Quaternion q = QU("junk");
  Position3D t = P3("junk");
  quaternionPosition3DFromPosition6D(p, q, t);
  EQ("position", t, Position3D(p.x, p.y, p.z));
  EQ("orientation", transformFromQuaternion(q), mrpy(p.wx, p.wy, p.wz), vec(0, 0, 0));
}
LAW law_part_position2d() {
  Transform t = TR("t");
  Position2D o = P2("junk");
  EQ("value", position2DFromTransform(t), Position2D(t.r1_c4, t.r2_c4));
  position2DFromTransformInPlace(t, o);
  EQ("in place", o, Position2D(t.r1_c4, t.r2_c4));
}
LAW law_part_pose_from_transform() {
  Transform t = anyT("t");
  Pose2D p = pose2DFromTransform(t), o = Q2("junk");
  law_eq("x", p.x, t.r1_c4);
  law_eq("y", p.y, t.r2_c4);
  pose2DFromTransformInPlace(t, o);
  EQ("in place", o, p);
}
LAW law_part_pose_heading() {
  // the heading is the yaw angle
  double a = law_range("a", 0, -PIM, PIM), b = law_range("a", 1, -1.57, 1.57), c = law_range("a", 2, -PIM, PIM);
  Pose2D p = pose2DFromTransform(asT(mrpy(a, b, c), v3(P3("p"))));
  law_eq("heading", p.theta, c);
}
LAW law_part_transform_from_pose() {
  Pose2D p = Q2("p");
  Transform o = TR("junk");
  EQ("value", transformFromPose2D(p), mrz(p.theta), vec(p.x, p.y, 0));
  transformFromPose2DInPlace(p, o);
  EQ("in place", o, mrz(p.theta), vec(p.x, p.y, 0));
}
LAW law_part_pose_round_trip() {
  Pose2D p = Q2("p");
  p.theta = law_range("t", 0, -PIM, PIM);
  EQ("round trip", pose2DFromTransform(transformFromPose2D(p)), p);
}
LAW law_part_transform_from_6d() {
  Position6D p = P6("p");
  EQ("rotation and position", transformFromPosition6D(p), mrpy(p.wx, p.wy, p.wz), vec(p.x, p.y, p.z));
  Rotation3D w = W3("w");
  EQ("rotation only", transformFromRotation3D(w), mrpy(w.wx, w.wy, w.wz), vec(0, 0, 0));
}
static inline M3 about(int axis, double t) {
  M3 x = mrx(t), y = mry(t), z = mrz(t), r = mid();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    r.m[i][j] = axis == 1 ? x.m[i][j] : axis == 2 ? y.m[i][j] : axis == 4 ? z.m[i][j] : r.m[i][j];
  return r; }
LAW law_part_rotvec() {
  int axis = law_ini("axis", 0);
  float t = law_in("t", 0);
  Position3D p = P3("p");
  Transform o = TR("junk");
  M3 m = about(axis, t);
  EQ("value", transformFromRotVec(axis, t, p), m, v3(p));
  transformFromRotVecInPlace(axis, t, p, o);
  EQ("in place", o, m, v3(p));
  EQ("no position", transformFromRotVec(axis, t), m, vec(0, 0, 0));
}
LAW law_part_rotvec_position() {
  Position3D p = P3("p");
  Transform o = TR("junk");
  EQ("value", transformFromRotVec(p), mid(), v3(p));
  transformFromRotVecInPlace(p, o);
  EQ("in place", o, mid(), v3(p));
}
LAW law_part_axis_mask() {
  int m = law_ini("m", 0);
  law_true("bits of the six axes, not all clear", isAxisMask(m) == (m >= 1 && m <= 63));
}
LAW law_part_axis_mask_values() {
  const int x = AXIS_MASK_X, y = AXIS_MASK_Y, z = AXIS_MASK_Z, a = AXIS_MASK_WX, b = AXIS_MASK_WY, c = AXIS_MASK_WZ;
  law_true("one bit each", x == 1 && y == 2 && z == 4 && a == 8 && b == 16 && c == 32);
  law_true("unions", AXIS_MASK_XY == (x | y) && AXIS_MASK_WYWZ == (b | c) && AXIS_MASK_VEL == (x | y | z) && AXIS_MASK_ROT == (a | b | c) &&
           AXIS_MASK_ALL == (x | y | z | a | b | c) && AXIS_MASK_NONE == 0 && AXIS_MASK_PLANEZ == (z | a | b));
}
LAW law_part_position_and_velocity() {
  float q = law_in("q", 0), d = law_in("q", 1);
  PositionAndVelocity z, a(q), b(q, d), c(b);
  law_eq("default", z.q, 0); law_eq("default", z.dq, 0);
  law_eq("position only", a.q, q); law_eq("position only", a.dq, 0);
  law_eq("both", b.q, q); law_eq("both", b.dq, d);
  law_eq("copy", c.q, q); law_eq("copy", c.dq, d);
  std::vector<float> v = b.toVector(), w(law_inb("full", 0) ? 2 : 0, 5.f);
  b.toVector(w);
  law_eqi("size", v.size(), 2); law_eqi("size", w.size(), 2);
  law_eq("vector", v[0], q); law_eq("vector", v[1], d);
  law_eq("vector", w[0], q); law_eq("vector", w[1], d);
}
LAW law_part_transform_and_velocity() {
  TransformAndVelocity6D z;
  EQ("default transform", z.T, mid(), vec(0, 0, 0));
  EQ("default velocity", z.V, Velocity6D());
  Transform t = TR("t");
  Velocity6D v = V6("v");
  TransformAndVelocity6D a(t, v), b(a);
  EQ("transform", a.T, t); EQ("velocity", a.V, v);
  EQ("copied transform", b.T, t); EQ("copied velocity", b.V, v);
}
LAW law_part_displacement() {
  Displacement z;
  EQ("default position", z.P, Position3D(0, 0, 0));
  EQ("default orientation", z.Q, Quaternion(1, 0, 0, 0));
  Displacement d(P3("p"));
  EQ("position", d.P, P3("p"));
  EQ("no orientation", d.Q, Quaternion(1, 0, 0, 0));
  Displacement e(P3("p"), QU("q"));
  EQ("position", e.P, P3("p"));
  EQ("orientation", e.Q, QU("q"));
}
LAW law_part_scaled_velocity() {
  // a gain times a position error is a velocity
  float k = law_in("k", 0);
  Position6D p = P6("p");
  Position3D q = P3("q");
  EQ("6D", k * p, Velocity6D(k * p.x, k * p.y, k * p.z, k * p.wx, k * p.wy, k * p.wz));
  EQ("3D", k * q, Velocity3D(k * q.x, k * q.y, k * q.z));
}
