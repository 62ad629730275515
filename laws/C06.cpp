// Change-of-reference helpers: rotate by R (or R^T) every vector the argument holds.
#include "law.h"
static inline V lin(const Position6D &p) { return vec(p.x, p.y, p.z); }
static inline V ang(const Position6D &p) { return vec(p.wx, p.wy, p.wz); }
static inline V lin(const Velocity6D &p) { return vec(p.xd, p.yd, p.zd); }
static inline V ang(const Velocity6D &p) { return vec(p.wxd, p.wyd, p.wzd); }
LAW law_ref_velocity() {
  Transform t = TR("t"); Velocity6D v = V6("v"), o = V6("junk"), b = V6("junk");
  changeReferenceVelocity6D(t, v, o);
  EQ("linear", lin(o), mv(M(t), lin(v)));
  EQ("angular", ang(o), mv(M(t), ang(v)));
  changeReferenceTransposeVelocity6D(t, v, b);
  EQ("transpose, linear", lin(b), mv(mtr(M(t)), lin(v)));
  EQ("transpose, angular", ang(b), mv(mtr(M(t)), ang(v)));
}
LAW law_ref_position6() {
  Transform t = TR("t"); Position6D v = P6("v"), o = P6("junk"), b = P6("junk");
  changeReferencePosition6D(t, v, o);
  EQ("linear", lin(o), mv(M(t), lin(v)));
  EQ("angular", ang(o), mv(M(t), ang(v)));
  changeReferenceTransposePosition6D(t, v, b);
  EQ("transpose, linear", lin(b), mv(mtr(M(t)), lin(v)));
  EQ("transpose, angular", ang(b), mv(mtr(M(t)), ang(v)));
}
LAW law_ref_position3() {
  Transform t = TR("t"); Position3D v = P3("v"), o = P3("junk"), b = P3("junk"), i = v, j = v;
  changeReferencePosition3D(t, v, o);
  EQ("rotated", v3(o), mv(M(t), v3(v)));
  changeReferenceTransposePosition3D(t, v, b);
  EQ("transpose", v3(b), mv(mtr(M(t)), v3(v)));
  changeReferencePosition3DInPlace(t, i);
  EQ("in place", i, o);
  changeReferenceTransposePosition3DInPlace(t, j);
  EQ("transpose, in place", j, b);
}
LAW law_ref_transform() {
  Transform t = TR("t"), v = TR("v"), o = TR("junk"), b = TR("junk");
  changeReferenceTransform(t, v, o);
  EQ("rotation", M(o), mmul(M(t), M(v)));
  EQ("position", tv(o), mv(M(t), tv(v)));
  changeReferenceTransposeTransform(t, v, b);
  EQ("transpose, rotation", M(b), mmul(mtr(M(t)), M(v)));
  EQ("transpose, position", tv(b), mv(mtr(M(t)), tv(v)));
}
LAW law_ref_roundtrip() {
  Transform t = anyT("t");
  Position3D p = P3("p"), o, q;
  changeReferencePosition3D(t, p, o);
  changeReferenceTransposePosition3D(t, o, q);
  EQ("position there and back", q, p);
  Velocity6D v = V6("v"), a, b;
  changeReferenceVelocity6D(t, v, a);
  changeReferenceTransposeVelocity6D(t, a, b);
  EQ("velocity there and back", b, v);
  Position6D w = P6("w"), c, d;
  changeReferenceTransposePosition6D(t, w, c);
  changeReferencePosition6D(t, c, d);
  EQ("position6 back and there", d, w);
  Transform u = TR("u"), e, f;
  changeReferenceTransform(t, u, e);
  changeReferenceTransposeTransform(t, e, f);
  EQ("transform there and back", f, u);
}
LAW law_ref_norm() {
  Transform t = anyT("t");
  Position3D p = P3("p"), o;
  changeReferencePosition3D(t, p, o);
  EQ("length is kept", dot(v3(o), v3(o)), dot(v3(p), v3(p)));
}
LAW law_ref_rotate_vectors() {
  Rotation r = RO("r"); Position3D p = P3("p"); Velocity3D v = V3("v");
  EQ("rotation * position", v3(r * p), mv(M(r), v3(p)));
  EQ("rotation * velocity", v3(r * v), mv(M(r), v3(v)));
}
LAW law_ref_transform_point() {
  Transform t = TR("t"); Position3D p = P3("p"); Position2D q = P2("q");
  V e = mv(M(t), v3(p));
  EQ("transform * position", v3(t * p), vec(e.v[0] + t.r1_c4, e.v[1] + t.r2_c4, e.v[2] + t.r3_c4));
  EQ("transform * planar position", t * q, t * Position3D(q.x, q.y, 0));
}
// difference of two transforms expressed in the first one's axes
LAW law_ref_transform_diff() {
  Transform a = TR("a"), b = TR("b");
  Position6D d = position6DFromTransformDiff(a, b), o = P6("junk");
  position6DFromTransformDiffInPlace(a, b, o);
  EQ("in place", o, d);
  Position6D n = position6DFromTransformDiff(anyT("c"), anyT("c"));
  EQ("no difference", n, Position6D(0, 0, 0, 0, 0, 0));
}
LAW law_ref_transform_diff_translation() {
  Transform c = anyT("c"), t = c;
  Position3D p = P3("p");
  t.r1_c4 = p.x; t.r2_c4 = p.y; t.r3_c4 = p.z;
  Position6D d = position6DFromTransformDiff(c, t);
  EQ("translation", lin(d), vec(p.x - c.r1_c4, p.y - c.r2_c4, p.z - c.r3_c4));
  EQ("no rotation", ang(d), vec(0, 0, 0));
}
LAW law_ref_transform_diff_rotation() {
  M3 c = anyM("c");
  double h = law_in("h", 0);
  V u = anyU("u");
  Position6D d = position6DFromTransformDiff(asT(c, vec(0, 0, 0)), asT(mmul(mrod(h, u.v[0], u.v[1], u.v[2]), c), vec(0, 0, 0)));
  EQ("rotation of h about u", ang(d), vec(std::sin(h) * u.v[0], std::sin(h) * u.v[1], std::sin(h) * u.v[2]));
}
