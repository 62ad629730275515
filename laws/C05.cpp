// Planar poses: SE(2).
#include "law.h"
struct M2 { double c, s, x, y; };
static inline M2 S(const Pose2D &p) { M2 r; r.c = std::cos(p.theta); r.s = std::sin(p.theta); r.x = p.x; r.y = p.y; return r; }
LAW law_pose_product() {
  Pose2D a = Q2("a"), b = Q2("b"), p = a * b;
  M2 m = S(a);
  law_eq("x", p.x, m.x + m.c * b.x - m.s * b.y);
  law_eq("y", p.y, m.y + m.s * b.x + m.c * b.y);
  law_eq("theta", p.theta, (double)a.theta + b.theta);
  Pose2D c = a;
  Pose2D &r = (c *= b);
  EQ("*= is *", c, p);
  law_true("*= returns the object", &r == &c);
}
LAW law_pose_self() { Pose2D a = Q2("a"), c = a; c *= c; EQ("a *= a", c, a * a); }
LAW law_pose_assoc() { Pose2D a = Q2("a"), b = Q2("b"), c = Q2("c"); EQ("(ab)c = a(bc)", (a * b) * c, a * (b * c)); }
LAW law_pose_identity() { Pose2D a = Q2("a"), e; EQ("ea", e * a, a); EQ("ae", a * e, a); EQ("default", e, Pose2D(0, 0, 0)); }
LAW law_pose_inverse() {
  Pose2D a = Q2("a"), e;
  EQ("a a^-1", a * a.inverse(), e);
  EQ("a^-1 a", a.inverse() * a, e);
  EQ("involution", a.inverse().inverse(), a);
}
LAW law_pose_inverse_siblings() {
  Pose2D a = Q2("a"), b = a, o = Q2("junk"), i = a.inverse();
  pose2dInvertInPlace(b);
  EQ("in place", b, i);
  EQ("pinv", pinv(a), i);
  EQ("free", pose2DInverse(a), i);
  pose2DInverse(a, o);
  EQ("out variant", o, i);
  Pose2D s = a;
  pose2DInverse(s, s);
  EQ("out variant on itself", s, i);
}
LAW law_pose_diff() {
  Pose2D a = Q2("a"), b = Q2("b");
  EQ("a (a^-1 b) = b", a * a.diff(b), b);
  EQ("free", pose2dDiff(a, b), a.diff(b));
}
LAW law_pose_act() {
  Pose2D a = Q2("a"), b = Q2("b");
  Position2D p = P2("p"), q = a * p;
  M2 m = S(a);
  law_eq("x", q.x, m.x + m.c * p.x - m.s * p.y);
  law_eq("y", q.y, m.y + m.s * p.x + m.c * p.y);
  EQ("(ab)p = a(bp)", (a * b) * p, a * (b * p));
  EQ("a^-1(a p) = p", a.inverse() * (a * p), p);
}
LAW law_pose_transform() {
  Pose2D a = Q2("a"), b = Q2("b");
  EQ("homomorphism to transforms", transformFromPose2D(a * b), transformFromPose2D(a) * transformFromPose2D(b));
  EQ("inverse", transformFromPose2D(a.inverse()), transformFromPose2D(a).inverse());
}
LAW law_pose_distance() {
  Pose2D a = Q2("a"), b = Q2("b");
  double dx = (double)a.x - b.x, dy = (double)a.y - b.y;
  law_eq("squared", a.distanceSquared(b), dx * dx + dy * dy);
  law_eq("free squared", distanceSquared(a, b), dx * dx + dy * dy);
  law_eq("distance", a.distance(b), std::sqrt(dx * dx + dy * dy));
  law_eq("free distance", distance(a, b), std::sqrt(dx * dx + dy * dy));
  law_eq("norm", a.norm(), std::sqrt((double)a.x * a.x + (double)a.y * a.y));
  law_eq("distance is kept by a motion", (double)distanceSquared(Q2("m") * a, Q2("m") * b), dx * dx + dy * dy);
}
LAW law_pose_normalize() {
  Pose2D a = Q2("a");
  double n = std::sqrt((double)a.x * a.x + (double)a.y * a.y);
  law_throws_iff("null translation", n < 1e-4f);
  Pose2D u = a.normalize();
  law_eq("x", u.x * n, a.x);
  law_eq("y", u.y * n, a.y);
  law_eq("theta is kept", u.theta, a.theta);
}
LAW law_pose_polar() {
  float r = law_in("r", 0), t = law_in("t", 0);
  EQ("pose", Pose2D::fromPolarCoordinates(r, t), Pose2D((float)(r * std::cos((double)t)), (float)(r * std::sin((double)t)), t));
  EQ("position", Position2D::fromPolarCoordinates(r, t), Position2D((float)(r * std::cos((double)t)), (float)(r * std::sin((double)t))));
}
LAW law_pose_polar_back() {
  float r = law_pos("r", 0), t = law_range("t", 0, -3.1415926, 3.1415926);
  Pose2D p = Pose2D::fromPolarCoordinates(r, t);
  law_eq("pose norm", p.norm(), r);
  law_eq("pose angle", p.getAngle(), t);
  Position2D q = Position2D::fromPolarCoordinates(r, t);
  law_eq("position norm", q.norm(), r);
  law_eq("position angle", q.getAngle(), t);
}
LAW law_pose_change_reference() {
  Pose2D p = Q2("p"), o = Q2("junk"), i = p;
  float t = law_in("t", 0);
  changeReferencePose2D(t, p, o);
  Pose2D e = Pose2D(0, 0, t) * p;
  law_eq("x", o.x, e.x);
  law_eq("y", o.y, e.y);
  law_eq("theta is kept", o.theta, p.theta);
  changeReferencePose2DInPlace(t, i);
  EQ("in place", i, o);
}
LAW law_pose_parts() {
  Pose2D p = Q2("p");
  Position2D a = P2("a"), o = P2("junk");
  float t = law_in("t", 0);
  EQ("position of a pose", position2DFromPose2D(p), Position2D(p.x, p.y));
  position2DFromPose2DInPlace(p, o);
  EQ("position of a pose, in place", o, Position2D(p.x, p.y));
  EQ("pose of a position", pose2DFromPosition2D(a, t), Pose2D(a.x, a.y, t));
  EQ("pose of a position, default angle", pose2DFromPosition2D(a), Pose2D(a.x, a.y, 0));
  Pose2D q = Q2("junk");
  pose2DFromPosition2DInPlace(a, t, q);
  EQ("pose of a position, in place", q, Pose2D(a.x, a.y, t));
  Position6D z = P6("z"), j = P6("junk");
  EQ("pose of a Position6D", pose2DFromPosition6D(z), Pose2D(z.x, z.y, z.wz));
  Pose2D k = Q2("junk");
  pose2DFromPosition6DInPlace(z, k);
  EQ("pose of a Position6D, in place", k, Pose2D(z.x, z.y, z.wz));
  EQ("Position6D of a pose", position6DFromPose2D(p), Position6D(p.x, p.y, 0, 0, 0, p.theta));
  position6DFromPose2DInPlace(p, j);
  EQ("Position6D of a pose, in place", j, Position6D(p.x, p.y, 0, 0, 0, p.theta));
}
