// Shapes: what they are built from, visitors, and the pill between two centres
#include "law.h"
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <stdexcept>
extern "C" int law_pick(const char *, int) NT __attribute__((const));
struct Rec : Shape3DVisitor {
  mutable int n, kind;
  mutable const Shape3D *it;
  Rec() : n(0), kind(-1), it(nullptr) {}
  void visit(const Pill &s) const { ++n; kind = 0; it = &s; }
  void visit(const Sphere &s) const { ++n; kind = 1; it = &s; }
  void visit(const RoundedRectangle &s) const { ++n; kind = 2; it = &s; }
  void visit(const Plane &s) const { ++n; kind = 3; it = &s; }
  void visit(const HalfSpace &s) const { ++n; kind = 4; it = &s; }
  void visit(const Rectangle &s) const { ++n; kind = 5; it = &s; }
  void visit(const HalfLine &s) const { ++n; kind = 6; it = &s; }
};
static void visited(const Shape3D &s, int kind) {
  Rec r;
  s.accept(r);
  law_eqi("visited once", r.n, 1);
  law_eqi("as its own kind", r.kind, kind);
  law_true("itself", r.it == &s);
}
static void refused(const Shape3D &s) {
  NotImplementedShape3DVisitor v;
  law_throws_iff("not implemented", true);
  s.accept(v);
}
LAW law_shape_pill() {
  float h = law_in("h", 0), r = law_in("r", 0);
  Pill s(h, r);
  law_eq("half extent", s.getHalfExtent(), h);
  law_eq("radius", s.getRadius(), r);
  visited(s, 0);
}
LAW law_shape_sphere() { float r = law_in("r", 0); Sphere s(r); law_eq("radius", s.getRadius(), r); visited(s, 1); }
LAW law_shape_rounded_rectangle() {
  float x = law_in("x", 0), y = law_in("y", 0), r = law_in("r", 0);
  RoundedRectangle s(x, y, r);
  law_eq("half extent x", s.getHalfExtentX(), x);
  law_eq("half extent y", s.getHalfExtentY(), y);
  law_eq("radius", s.getRadius(), r);
  visited(s, 2);
}
LAW law_shape_plane() { visited(Plane(), 3); }
LAW law_shape_half_space() { visited(HalfSpace(), 4); }
LAW law_shape_rectangle() {
  float x = law_in("x", 0), y = law_in("y", 0);
  Rectangle s(x, y);
  law_eq("half extent x", s.getHalfExtentX(), x);
  law_eq("half extent y", s.getHalfExtentY(), y);
  visited(s, 5);
}
LAW law_shape_half_line() { visited(HalfLine(), 6); }
LAW law_refuse_pill() { refused(Pill(law_in("h", 0), law_in("r", 0))); }
LAW law_refuse_sphere() { refused(Sphere(law_in("r", 0))); }
LAW law_refuse_rounded_rectangle() { refused(RoundedRectangle(law_in("x", 0), law_in("x", 1), law_in("r", 0))); }
LAW law_refuse_plane() { refused(Plane()); }
LAW law_refuse_half_space() { refused(HalfSpace()); }
LAW law_refuse_rectangle() { refused(Rectangle(law_in("x", 0), law_in("x", 1))); }
LAW law_refuse_half_line() { refused(HalfLine()); }
// pills: the centres are on the z axis of the frame
LAW law_pill_centers() {
  float h = law_in("h", 0);
  Transform t = TR("t");
  Position3D a = P3("a"), b = P3("b");
  getSphereCentersFromPill(h, t, a, b);
  V z = vec(t.r1_c3, t.r2_c3, t.r3_c3), o = tv(t);
  for (int i = 0; i < 3; ++i) {
    law_eq("up", v3(a).v[i], o.v[i] + h * z.v[i]);
    law_eq("down", v3(b).v[i], o.v[i] - h * z.v[i]);
  }
}
// any two distinct centres, c -+ h u
static void pill(double x, double y, double z) {
  double h = law_range("h", 0, 1e-6, 1e6);
  V c = vec(law_in("c", 0), law_in("c", 1), law_in("c", 2));
  Position3D a = p3(vec(c.v[0] - h * x, c.v[1] - h * y, c.v[2] - h * z)), b = p3(vec(c.v[0] + h * x, c.v[1] + h * y, c.v[2] + h * z));
  float e = law_in("e", 0);
  Transform t = TR("t");
  computePillParameters(a, b, e, t);
  law_eq("half extent", e, h);
  EQ("from a to b", vec(t.r1_c3, t.r2_c3, t.r3_c3), vec(x, y, z));
  EQ("orthonormal", mmul(mtr(M(t)), M(t)), mid());
  law_eq("direct", mdet(M(t)), 1);
  EQ("centre", tv(t), c);
  Position3D p, q;
  getSphereCentersFromPill(e, t, p, q);
  EQ("the upper centre is b", p, b);
  EQ("the lower centre is a", q, a);
}
LAW law_pill_x() { double a = law_range("a", 0, -1.5, 1.5), b = law_range("b", 0, -1.5, 1.5); pill(std::cos(a) * std::cos(b), std::cos(a) * std::sin(b), std::sin(a)); }
LAW law_pill_mx() { double a = law_range("a", 0, -1.5, 1.5), b = law_range("b", 0, -1.5, 1.5); pill(-std::cos(a) * std::cos(b), std::cos(a) * std::sin(b), std::sin(a)); }
LAW law_pill_y() { double a = law_range("a", 0, -1.5, 1.5); pill(0, std::cos(a), std::sin(a)); }
LAW law_pill_my() { double a = law_range("a", 0, -1.5, 1.5); pill(0, -std::cos(a), std::sin(a)); }
LAW law_pill_z() { pill(0, 0, 1); }
LAW law_pill_mz() { pill(0, 0, -1); }
LAW law_pill_null() {
  Position3D a = P3("a");
  float e;
  Transform t;
  law_throws_iff("no direction", true);
  computePillParameters(a, a, e, t);
}
