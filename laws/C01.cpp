// Rigid transforms form a group acting on points.
#include "law.h"

LAW law_group_product() {
  Transform a = TR("a"), b = TR("b");
  M3 ra = M(a), rb = M(b);
  EQ("a*b is the homogeneous matrix product", a * b, mmul(ra, rb), vec(mv(ra, tv(b)).v[0] + a.r1_c4, mv(ra, tv(b)).v[1] + a.r2_c4, mv(ra, tv(b)).v[2] + a.r3_c4));
}
LAW law_group_assoc() {
  Transform a = TR("a"), b = TR("b"), c = TR("c");
  EQ("(ab)c = a(bc)", (a * b) * c, a * (b * c));
}
LAW law_group_identity() {
  Transform a = TR("a"), e;
  EQ("default is the identity", e, mid(), vec(0, 0, 0));
  EQ("e*a = a", e * a, a);
  EQ("a*e = a", a * e, a);
  EQ("inverse of identity", e.inverse(), e);
}
LAW law_group_mul_assign() {
  Transform a = TR("a"), b = TR("b");
  Transform c = a;
  Transform &r = (c *= b);
  EQ("a *= b is a*b", c, a * b);
  law_true("*= returns the object", &r == &c);
}
LAW law_group_mul_self() {
  Transform a = TR("a");
  Transform c = a;
  c *= c;
  EQ("a *= a is a*a", c, a * a);
}
LAW law_group_premultiply() {
  Transform a = TR("a"), b = TR("b");
  Transform c = b;
  transformPreMultiply(a, c);
  EQ("preMultiply(a, b) leaves a*b in b", c, a * b);
}
LAW law_group_inverse() {
  Transform a = anyT("a");
  EQ("a * a.inverse() = 1", a * a.inverse(), Transform());
  EQ("a.inverse() * a = 1", a.inverse() * a, Transform());
  EQ("inverse is an involution", a.inverse().inverse(), a);
}
LAW law_group_inverse_of_product() {
  Transform a = anyT("a"), b = anyT("b");
  EQ("(ab)^-1 = b^-1 a^-1", (a * b).inverse(), b.inverse() * a.inverse());
}
LAW law_group_inverse_variants() {
  Transform a = TR("a");
  Transform i = a.inverse();
  EQ("pinv", pinv(a), i);
  EQ("transformInverse (value)", transformInverse(a), i);
  Transform o = TR("junk");
  transformInverse(a, o);
  EQ("transformInverse (out parameter)", o, i);
  Transform p = a;
  transformInvertInPlace(p);
  EQ("transformInvertInPlace", p, i);
}
LAW law_group_diff() {
  Transform a = anyT("a"), b = anyT("b");
  EQ("a * diff(a,b) = b", a * transformDiff(a, b), b);
  EQ("member diff", a.diff(b), transformDiff(a, b));
  EQ("diff = a^-1 b", a.diff(b), a.inverse() * b);
  EQ("diff(a,a) = 1", a.diff(a), Transform());
}
LAW law_group_action_point() {
  Transform a = TR("a"), b = TR("b");
  Position3D p = P3("p");
  EQ("(ab)p = a(bp)", (a * b) * p, a * (b * p));
  V w = mv(M(a), v3(p));
  EQ("a*p = R p + t", v3(a * p), vec(w.v[0] + a.r1_c4, w.v[1] + a.r2_c4, w.v[2] + a.r3_c4));
  EQ("e*p = p", Transform() * p, p);
}
LAW law_group_action_point_inverse() {
  Transform a = anyT("a");
  Position3D p = P3("p");
  EQ("a^-1 (a p) = p", a.inverse() * (a * p), p);
}
LAW law_group_action_point2d() {
  Transform a = TR("a");
  Position2D p = P2("p");
  Position3D q(p.x, p.y, 0.0f);
  EQ("a*(x,y) = a*(x,y,0)", a * p, a * q);
}
LAW law_group_isometry() {
  Transform a = anyT("a");
  Position3D p = P3("p"), q = P3("q");
  EQ("rigid motion preserves squared distance", (a * p).distanceSquared(a * q), p.distanceSquared(q));
}
LAW law_group_determinant() {
  Transform a = TR("a");
  EQ("member determinant", a.determinant(), mdet(M(a)));
  EQ("free determinant", determinant(a), mdet(M(a)));
}
LAW law_group_determinant_rigid() {
  Transform a = anyT("a"), b = anyT("b");
  EQ("det of a rigid transform", a.determinant(), 1);
  EQ("det of a product", (a * b).determinant(), 1);
  EQ("det of an inverse", a.inverse().determinant(), 1);
}
LAW law_group_determinant_mult() {
  Transform a = TR("a"), b = TR("b");
  EQ("det(ab) = det a det b", (a * b).determinant(), (double)a.determinant() * b.determinant());
}
LAW law_group_distance() {
  Transform a = TR("a"), b = TR("b");
  float dx = a.r1_c4 - b.r1_c4, dy = a.r2_c4 - b.r2_c4, dz = a.r3_c4 - b.r3_c4;
  float s = dx * dx + dy * dy + dz * dz;
  EQ("distanceSquared is that of the translations", transformDistanceSquared(a, b), s);
  EQ("member distanceSquared", a.distanceSquared(b), s);
  EQ("distance", transformDistance(a, b), std::sqrt(s));
  EQ("member distance", a.distance(b), std::sqrt(s));
  EQ("norm is that of the translation", a.norm(), std::sqrt(a.r1_c4 * a.r1_c4 + a.r2_c4 * a.r2_c4 + a.r3_c4 * a.r3_c4));
  EQ("free norm", norm(a), a.norm());
}
LAW law_group_position_ctor() {
  float x = law_in("x", 0), y = law_in("y", 0), z = law_in("z", 0);
  EQ("Transform(x,y,z)", Transform(x, y, z), mid(), vec(x, y, z));
  EQ("fromPosition(x,y,z)", Transform::fromPosition(x, y, z), mid(), vec(x, y, z));
  EQ("transformFromPosition(x,y,z)", transformFromPosition(x, y, z), mid(), vec(x, y, z));
}
// orthonormalisation: the result is a rigid transform spanning the same frame
LAW law_group_normalize_identity_on_rigid() {
  Transform a = anyT("a");
  Transform b = a;
  normalizeTransform(b);
  EQ("normalising a rigid transform changes nothing", b, a);
  Transform c = a;
  c.normalizeTransform();
  EQ("member normalizeTransform", c, a);
}
