// The component-wise types are real vector spaces.
#include "vecs.h"
template <class T> static inline void addsub() {
  T a = any<T>("a"), b = any<T>("b"), s = a + b, d = a - b, p = a, m = a;
  T &rp = (p += b), &rm = (m -= b);
  law_true("+= returns the object", &rp == &p);
  law_true("-= returns the object", &rm == &m);
  EACH(i, T) {
    law_eq("sum", at(s, i), (double)at(a, i) + at(b, i));
    law_eq("difference", at(d, i), (double)at(a, i) - at(b, i));
    law_eq("+=", at(p, i), at(s, i));
    law_eq("-=", at(m, i), at(d, i));
  }
  T self = a; self += self;
  EACH(i, T) law_eq("a += a", at(self, i), 2.0 * at(a, i));
  T self2 = a; self2 -= self2;
  EACH(i, T) law_eq("a -= a", at(self2, i), 0.0);
}
template <class T> static inline void sum_only() {
  T a = any<T>("a"), b = any<T>("b"), s = a + b, d = a - b;
  EACH(i, T) {
    law_eq("sum", at(s, i), (double)at(a, i) + at(b, i));
    law_eq("difference", at(d, i), (double)at(a, i) - at(b, i));
  }
}
template <class T> static inline void unary() {
  T a = any<T>("a"), n = -a, p = +a;
  EACH(i, T) { law_eq("negation", at(n, i), -(double)at(a, i)); law_eq("plus", at(p, i), at(a, i)); }
}
template <class T> static inline void scale() {
  T a = any<T>("a"), b = a;
  float k = law_in("k", 0);
  T s = a * k;
  T &rb = (b *= k);
  law_true("*= returns the object", &rb == &b);
  EACH(i, T) { law_eq("scaling", at(s, i), (double)k * at(a, i)); law_eq("*=", at(b, i), at(s, i)); }
}
template <class T> static inline void division() {
  T a = any<T>("a"), b = a;
  float k = law_in("k", 0);
  law_assume(k != 0);
  T q = a / k;
  T &rb = (b /= k);
  law_true("/= returns the object", &rb == &b);
  EACH(i, T) { law_eq("division", at(q, i), (double)at(a, i) / k); law_eq("/=", at(b, i), at(q, i)); }
}
template <class T> static inline void fill() {
  T z;
  EACH(i, T) law_eq("default is zero", at(z, i), 0.0);
  float k = law_in("k", 0);
  T f(k);
  EACH(i, T) law_eq("one value fills", at(f, i), k);
}
template <class T> static inline void copies() {
  T a = any<T>("a"), b(a), c;
  c = a;
  EACH(i, T) { law_eq("copy", at(b, i), at(a, i)); law_eq("assignment", at(c, i), at(a, i)); }
}
#define ALL_OF(name, T) \
  LAW law_addsub_##name() { addsub<T>(); } \
  LAW law_scale_##name() { scale<T>(); } \
  LAW law_div_##name() { division<T>(); } \
  LAW law_fill_##name() { fill<T>(); } \
  LAW law_copies_##name() { copies<T>(); }
ALL_OF(p2, Position2D)
ALL_OF(p3, Position3D)
ALL_OF(p6, Position6D)
ALL_OF(pose, Pose2D)
ALL_OF(v3, Velocity3D)
ALL_OF(w3, Rotation3D)
LAW law_sum_v6() { sum_only<Velocity6D>(); }
LAW law_scale_v6() { scale<Velocity6D>(); }
LAW law_div_v6() { division<Velocity6D>(); }
LAW law_fill_v6() { fill<Velocity6D>(); }
LAW law_copies_v6() { copies<Velocity6D>(); }
LAW law_unary_p2() { unary<Position2D>(); }
LAW law_unary_p3() { unary<Position3D>(); }
LAW law_unary_p6() { unary<Position6D>(); }
LAW law_unary_pose() { unary<Pose2D>(); }
LAW law_unary_v3() { unary<Velocity3D>(); }
LAW law_unary_v6() { unary<Velocity6D>(); }
LAW law_scale_qu() { scale<Quaternion>(); }
LAW law_div_qu() { division<Quaternion>(); }
LAW law_copies_qu() { copies<Quaternion>(); }
LAW law_components() {
  Position2D a(law_in("a", 0), law_in("a", 1)); law_eq("p2", a.x, law_in("a", 0)); law_eq("p2", a.y, law_in("a", 1));
  Position3D b(law_in("a", 0), law_in("a", 1), law_in("a", 2)); EQ("p3", b, P3("a"));
  Position6D c(law_in("a", 0), law_in("a", 1), law_in("a", 2), law_in("a", 3), law_in("a", 4), law_in("a", 5)); EQ("p6", c, P6("a"));
  Pose2D d(law_in("a", 0), law_in("a", 1), law_in("a", 2)); EQ("pose", d, Q2("a"));
  Velocity3D e(law_in("a", 0), law_in("a", 1), law_in("a", 2)); EQ("v3", e, V3("a"));
  Velocity6D f(law_in("a", 0), law_in("a", 1), law_in("a", 2), law_in("a", 3), law_in("a", 4), law_in("a", 5)); EQ("v6", f, V6("a"));
  Rotation3D g(law_in("a", 0), law_in("a", 1), law_in("a", 2)); EQ("w3", g, W3("a"));
  Quaternion h(law_in("a", 0), law_in("a", 1), law_in("a", 2), law_in("a", 3)); EQ("qu", h, QU("a"));
}
// scalar on the left
LAW law_left_scale() {
  float k = law_in("k", 0);
  Position2D a = P2("a");
  EQ("p2", k * a, a * k);
  Velocity3D v = V3("v");
  EQ("v3", k * v, v * k);
  Velocity6D w = V6("w");
  EQ("v6", k * w, w * k);
}
// a gain times a position error is a velocity, component by component
LAW law_gain() {
  float k = law_in("k", 0);
  Position3D a = P3("a");
  Velocity3D v = k * a;
  law_eq("x", v.xd, (double)k * a.x); law_eq("y", v.yd, (double)k * a.y); law_eq("z", v.zd, (double)k * a.z);
  Position6D b = P6("b");
  Velocity6D w = k * b;
  law_eq("x6", w.xd, (double)k * b.x); law_eq("y6", w.yd, (double)k * b.y); law_eq("z6", w.zd, (double)k * b.z);
  law_eq("wx6", w.wxd, (double)k * b.wx); law_eq("wy6", w.wyd, (double)k * b.wy); law_eq("wz6", w.wzd, (double)k * b.wz);
}
// Euclidean norm and unit vectors
template <class T> static inline double sq() { T a = any<T>("a"); double s = 0; EACH(i, T) s += (double)at(a, i) * at(a, i); return s; }
template <class T> static inline void norms() {
  T a = any<T>("a");
  double n = a.norm();
  law_eq("norm squared", n * n, sq<T>());
  law_true("norm is not negative", n >= 0);
  law_eq("free norm", norm(a), n);
}
template <class T> static inline void units() {
  T a = any<T>("a");
  double n = std::sqrt(sq<T>());
  law_assume(n > 0);
  T u = a.normalize(), f = normalize(a);
  EACH(i, T) { law_eq("unit vector", at(u, i) * n, at(a, i)); law_eq("free normalize", at(f, i), at(u, i)); }
}
LAW law_norm_p2() { norms<Position2D>(); }
LAW law_norm_p3() { norms<Position3D>(); }
LAW law_norm_p6() { norms<Position6D>(); }
LAW law_norm_v3() { norms<Velocity3D>(); }
LAW law_norm_v6() { norms<Velocity6D>(); }
LAW law_norm_w3() { norms<Rotation3D>(); }
LAW law_norm_qu() { norms<Quaternion>(); }
LAW law_unit_p2() { units<Position2D>(); }
LAW law_unit_p3() { units<Position3D>(); }
LAW law_unit_v3() { units<Velocity3D>(); }
LAW law_unit_v6() { units<Velocity6D>(); }
LAW law_unit_qu() { units<Quaternion>(); }
LAW law_unit_p6() {
  Position6D a = P6("a");
  double n = std::sqrt(sq<Position6D>());
  law_assume(n > 0);
  Position6D u = normalize(a);
  for (int i = 0; i < 6; ++i) law_eq("unit vector", at(u, i) * n, at(a, i));
}
// (six-dimensional positions: distance of the translation part)
template <class T> static inline void dist(int n) {
  T a = any<T>("a"), b = any<T>("b");
  double s = 0;
  for (int i = 0; i < n; ++i) s += ((double)at(a, i) - at(b, i)) * ((double)at(a, i) - at(b, i));
  law_eq("squared", a.distanceSquared(b), s);
  law_eq("free squared", distanceSquared(a, b), s);
  double d = a.distance(b);
  law_eq("distance", d * d, s);
  law_true("not negative", d >= 0);
  law_eq("free", distance(a, b), d);
  law_eq("symmetric", b.distance(a), d);
  law_eq("to itself", a.distance(a), 0.0);
}
LAW law_dist_p2() { dist<Position2D>(2); }
LAW law_dist_p3() { dist<Position3D>(3); }
LAW law_dist_p6() { dist<Position6D>(3); }
LAW law_dot_cross_2() {
  Position2D a = P2("a"), b = P2("b");
  law_eq("dot", a.dotProduct(b), (double)a.x * b.x + (double)a.y * b.y);
  law_eq("free dot", dotProduct(a, b), a.dotProduct(b));
  law_eq("cross", a.crossProduct(b), (double)a.x * b.y - (double)a.y * b.x);
  law_eq("free cross", crossProduct(a, b), a.crossProduct(b));
  float r = law_in("junk", 0);
  crossProduct(a, b, r);
  law_eq("out cross", r, a.crossProduct(b));
  law_eq("Lagrange", (double)a.dotProduct(b) * a.dotProduct(b) + (double)a.crossProduct(b) * a.crossProduct(b),
         (double)a.dotProduct(a) * b.dotProduct(b));
}
LAW law_dot_cross_3() {
  Position3D a = P3("a"), b = P3("b"), c = a.crossProduct(b);
  law_eq("dot", a.dotProduct(b), dot(v3(a), v3(b)));
  law_eq("free dot", dotProduct(a, b), a.dotProduct(b));
  EQ("cross", v3(c), cross(v3(a), v3(b)));
  EQ("free cross", crossProduct(a, b), c);
  Position3D r = P3("junk");
  crossProduct(a, b, r);
  EQ("out cross", r, c);
  EQ("anticommutes", b.crossProduct(a), -c);
  law_eq("orthogonal to a", dotProduct(c, a), 0.0);
  law_eq("orthogonal to b", dotProduct(c, b), 0.0);
}
LAW law_unit_test_3() {
  Position3D a = P3("a");
  float e = law_pos("eps", 0);
  double n = std::sqrt(dot(v3(a), v3(a)));
  bool r = a.isUnitVector(e);
  law_true("free unit test", isUnitVector(a, e) == r);
  if (std::fabs(n - 1) < e) law_true("unit within tolerance", r);
  if (std::fabs(n - 1) > e) law_true("not unit beyond tolerance", !r);
}
LAW law_orthogonal_test_3() {
  Position3D a = P3("a"), b = P3("b");
  float e = law_pos("eps", 0);
  bool r = a.isOrthogonal(b, e);
  double d = dot(v3(a), v3(b));
  law_true("free orthogonality test", isOrthogonal(a, b, e) == r);
  if (std::fabs(d) < e) law_true("orthogonal within tolerance", r);
  if (std::fabs(d) > e) law_true("not orthogonal beyond tolerance", !r);
}
