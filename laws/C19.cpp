// Feet collision: segments, boxes, best rotation without collision, ellipse.
#include "law.h"
#include <almath/tools/avoidfootcollision.h>
typedef std::vector<Position2D> Box;
static inline Position2D pt(double x, double y) { return Position2D((float)x, (float)y); }
static inline Box quad(const Position2D &a, const Position2D &b, const Position2D &c, const Position2D &d) {
  Box r; r.push_back(a); r.push_back(b); r.push_back(c); r.push_back(d); return r; }
static inline Box tri(const Position2D &a, const Position2D &b, const Position2D &c) { Box r; r.push_back(a); r.push_back(b); r.push_back(c); return r; }
// clockwise rectangle
static inline Box rect(double x, double y, double w, double h) { return quad(pt(x - w, y - h), pt(x - w, y + h), pt(x + w, y + h), pt(x + w, y - h)); }
// ---- segments
static inline void cross(double t, double L) {
  // A1 + ra u = B1 + rb v is the only common point of the two lines
  // (any u = L (cos t, sin t), any v = k (cos t, sin t) + h (-sin t, cos t) off the tolerance for parallel lines)
  double ax = law_in("a", 0), ay = law_in("a", 1), k = law_in("k", 0), h = law_in("h", 0);
  double ux = L * std::cos(t), uy = L * std::sin(t), vx = k * std::cos(t) - h * std::sin(t), vy = k * std::sin(t) + h * std::cos(t);
  double ra = law_in("r", 0), rb = law_in("r", 1);
  law_assume(h * L > 1e-4 || h * L < -1e-4);
  double bx = ax + ra * ux - rb * vx, by = ay + ra * uy - rb * vy;
  Position2D c = P2("junk");
  bool r = intersectionSegment2D(pt(ax, ay), pt(ax + ux, ay + uy), pt(bx, by), pt(bx + vx, by + vy), c);
  law_true("exactly when both parameters are in [0, 1]", r == (ra >= 0 && ra <= 1 && rb >= 0 && rb <= 1));
  if (r) { law_eq("common point x", c.x, ax + ra * ux); law_eq("common point y", c.y, ay + ra * uy); }
}
LAW law_segments_cross_1() { cross(law_range("t", 0, -0.8, 0.8), law_range("L", 0, 0.001, 1e6)); }
LAW law_segments_cross_2() { cross(law_range("t", 0, 0.77, 2.38), law_range("L", 0, 0.001, 1e6)); }
LAW law_segments_cross_3() { cross(law_range("t", 0, -0.8, 0.8), -law_range("L", 0, 0.001, 1e6)); }
LAW law_segments_cross_4() { cross(law_range("t", 0, 0.77, 2.38), -law_range("L", 0, 0.001, 1e6)); }
LAW law_segments_parallel() {
  double ux = law_in("u", 0), uy = law_in("u", 1), k = law_in("k", 0);
  Position2D a = P2("a"), b = P2("b"), c;
  law_true("no single common point", !intersectionSegment2D(a, pt(a.x + ux, a.y + uy), b, pt(b.x + k * ux, b.y + k * uy), c));
}
// ---- boxes
static inline bool left(const Position2D &a, const Position2D &b, const Position2D &p) {
  return ((double)b.x - a.x) * ((double)p.y - a.y) - ((double)b.y - a.y) * ((double)p.x - a.x) >= 0; }
template <int N> static inline bool inside(const Box &b, const Position2D &p) {
  bool r = true;
  for (int i = 0; i < N; ++i) r &= !left(b[i], b[(i + 1) % N], p);
  return r; }
template <int N, int M> static inline void collide(const Box &a, const Box &b) {
  bool e = false;
  Position2D c;
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) e |= intersectionSegment2D(a[i], a[(i + 1) % N], b[j], b[(j + 1) % M], c);
  e |= inside<N>(a, b[0]) | inside<M>(b, a[0]);
  law_true("two sides meet or one box is inside the other", areTwoBoxesInCollision(a, b) == e); }
LAW law_boxes_square_square() {
  // a fixed square and a translated one overlap when both offsets are at most the sum of half sizes
  double x = law_in("x", 0), y = law_in("x", 1);
  bool r = areTwoBoxesInCollision(rect(0, 0, 1, 1), rect(x, y, 0.5, 0.5));
  law_true("overlap", r == (x <= 1.5 && x >= -1.5 && y <= 1.5 && y >= -1.5)); }
LAW law_boxes_cross() {
  double x = law_in("x", 0), y = law_in("x", 1);
  bool r = areTwoBoxesInCollision(rect(0, 0, 2, 0.5), rect(x, y, 0.25, 1));
  law_true("overlap", r == (x <= 2.25 && x >= -2.25 && y <= 1.5 && y >= -1.5)); }
LAW law_boxes_swapped() {
  double x = law_in("x", 0), y = law_in("x", 1);
  law_true("symmetric", areTwoBoxesInCollision(rect(0, 0, 1, 1), rect(x, y, 0.5, 2)) == areTwoBoxesInCollision(rect(x, y, 0.5, 2), rect(0, 0, 1, 1))); }
LAW law_boxes_triangle_point() {
  Box t = tri(pt(0, 0), pt(0, 2), pt(3, 0)), p(1, P2("p"));
  Position2D q = P2("p");
  bool in = q.x > 0 && q.y > 0 && 2 * (double)q.x + 3 * (double)q.y < 6;
  law_true("point inside", areTwoBoxesInCollision(t, p) == in);
  law_true("point inside", areTwoBoxesInCollision(p, t) == in); }
LAW law_boxes_empty() {
  Box e, b = tri(P2("a"), P2("b"), P2("c"));
  law_true("no collision with nothing", !areTwoBoxesInCollision(e, e)); (void)b; }
LAW law_boxes_definition() {
  collide<3, 3>(tri(pt(0, 0), pt(0, 2), pt(3, 0)), tri(P2("a"), P2("b"), P2("c"))); }
LAW law_boxes_moved() {
  // invariant under a translation of both
  Position2D d = P2("d");
  double x = law_in("x", 0), y = law_in("x", 1);
  law_true("translation", areTwoBoxesInCollision(rect(d.x, d.y, 1, 1), rect(x + d.x, y + d.y, 0.5, 0.5)) == areTwoBoxesInCollision(rect(0, 0, 1, 1), rect(x, y, 0.5, 0.5))); }
LAW law_box_compute() {
  Box b = quad(P2("a"), P2("b"), P2("c"), P2("d")), o(2, P2("junk")), o0, o6(6, P2("junk"));
  Pose2D m = Q2("m");
  computeBox(b, m, o); computeBox(b, m, o0); computeBox(b, m, o6);
  law_eqi("size", o.size(), 4); law_eqi("size", o0.size(), 4); law_eqi("size", o6.size(), 4);
  for (int i = 0; i < 4; ++i) {
    double x = m.x + std::cos((double)m.theta) * b[i].x - std::sin((double)m.theta) * b[i].y, y = m.y + std::sin((double)m.theta) * b[i].x + std::cos((double)m.theta) * b[i].y;
    law_eq("x", o[i].x, x); law_eq("y", o[i].y, y); law_eq("x", o0[i].x, x); law_eq("y", o0[i].y, y); law_eq("x", o6[i].x, x); law_eq("y", o6[i].y, y); }
  Box none;
  computeBox(none, m, o);
  law_eqi("empty", o.size(), 0);
}
// ---- best rotation
static inline bool hit(const Position2D &p, const Pose2D &m) {
  // the moved point is inside the triangle (0,0) (0,2) (3,0)
  double x = m.x + std::cos((double)m.theta) * p.x - std::sin((double)m.theta) * p.y, y = m.y + std::sin((double)m.theta) * p.x + std::cos((double)m.theta) * p.y;
  return x > 0 && y > 0 && 2 * x + 3 * y < 6; }
LAW law_dichotomy() {
  Box t = tri(pt(0, 0), pt(0, 2), pt(3, 0)), p(1, P2("p"));
  Pose2D m = Q2("m"), o = m;
  dichotomie(t, p, o);
  law_eq("x kept", o.x, m.x);
  law_eq("y kept", o.y, m.y);
  // the largest collision free angle of the five step bisection, 0 if there is none
  double lo = 0, hi = m.theta, best = 0;
  for (int i = 0; i < 5; ++i) {
    double mid = (lo + hi) / 2;
    bool h = hit(p[0], Pose2D(m.x, m.y, (float)mid));
    if (h) hi = mid; else { lo = mid; best = mid; } }
  law_eq("bisection", o.theta, best);
}
template <bool left> static inline void avoid() {
  Box t = tri(pt(0, 0), pt(0, 2), pt(3, 0)), p(1, P2("p"));
  Pose2D m = Q2("m"), o = m, d = m;
  bool r = left ? avoidFootCollision(t, p, true, o) : avoidFootCollision(p, t, false, o);
  bool h = hit(p[0], m);
  dichotomie(t, p, d);
  law_true("tells the collision", r == h);
  law_eq("x kept", o.x, m.x);
  law_eq("y kept", o.y, m.y);
  law_eq("kept without collision, else the best rotation", o.theta, h ? d.theta : m.theta); }
LAW law_avoid_left_support() { avoid<true>(); }
LAW law_avoid_right_support() { avoid<false>(); }
// ---- ellipse
LAW law_ellipse() {
  float a = law_in("a", 0), b = law_in("a", 1);
  law_assume(a != 0); law_assume(b != 0);
  double s = law_pos("s", 0), t = law_in("t", 0);
  law_assume(s <= 1 || s > 1.0001);
  Pose2D m((float)(s * a * std::cos(t)), (float)(s * b * std::sin(t)), law_in("m", 0)), o = m;
  bool r = clipFootWithEllipse(a, b, o);
  law_true("tells whether it was outside", r == (s > 1));
  law_eq("angle kept", o.theta, m.theta);
  if (s <= 1) { law_eq("kept inside", o.x, m.x); law_eq("kept inside", o.y, m.y); }
  else {
    law_eq("on the ellipse, same direction", o.x, a * std::cos(t));
    law_eq("on the ellipse, same direction", o.y, b * std::sin(t)); }
}
