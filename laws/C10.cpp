// Degenerate divisions and normalisations are refused, not computed.
#include "vecs.h"
#include <stdexcept>
template <class T> static inline void divide() {
  T a = any<T>("a");
  float k = law_in("k", 0);
  law_throws_iff("division by zero is refused", k == 0);
  T r = a / k;
  EACH(i, T) law_eq("quotient", (double)at(r, i) * k, at(a, i));
}
template <class T> static inline void divide_assign() {
  T a = any<T>("a");
  float k = law_in("k", 0);
  law_throws_iff("division by zero is refused", k == 0);
  a /= k;
  EACH(i, T) law_eq("quotient", (double)at(a, i) * k, law_in("a", i));
}
template <class T> static inline void refused() {
  T a = any<T>("a");
  bool caught = false;
  try { a /= 0.0f; } catch (const std::runtime_error &) { caught = true; }
  law_true("runtime_error", caught);
  EACH(i, T) law_eq("left untouched", at(a, i), law_in("a", i));
}
#define D(n, T) LAW law_byzero_##n() { divide<T>(); } LAW law_divassign_##n() { divide_assign<T>(); } LAW law_refused_##n() { refused<T>(); }
D(p2, Position2D)
D(p3, Position3D)
D(p6, Position6D)
D(pose, Pose2D)
D(v3, Velocity3D)
D(v6, Velocity6D)
D(w3, Rotation3D)
D(qu, Quaternion)
template <class T> static inline void unit(bool member) {
  T a = any<T>("a");
  double s = 0;
  EACH(i, T) s += (double)at(a, i) * at(a, i);
  law_throws_iff("a null vector has no direction", s == 0);
  T r = member ? a.normalize() : normalize(a);
  double t = 0;
  EACH(i, T) t += (double)at(r, i) * at(r, i);
  law_eq("unit length", t, 1.0);
}
#define U(n, T) LAW law_null_##n() { unit<T>(true); } LAW law_freeunit_##n() { unit<T>(false); }
U(p2, Position2D)
U(p3, Position3D)
U(v3, Velocity3D)
U(v6, Velocity6D)
U(qu, Quaternion)
LAW law_null_p6() {
  Position6D a = P6("a");
  double s = 0;
  for (int i = 0; i < 6; ++i) s += (double)at(a, i) * at(a, i);
  law_throws_iff("a null vector has no direction", s == 0);
  Position6D r = normalize(a);
  double t = 0;
  for (int i = 0; i < 6; ++i) t += (double)at(r, i) * at(r, i);
  law_eq("unit length", t, 1.0);
}
LAW law_transform_mean_range() {
  Transform a = anyT("a"), b = anyT("b");
  float t = law_in("t", 0);
  law_throws_iff("interpolation parameter outside [0, 1]", t < 0 || t > 1);
  transformMean(a, b, t);
}
