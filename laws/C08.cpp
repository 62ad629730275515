// Equality and nearness.
#include "vecs.h"
template <class T> static inline void equality() {
  T a = any<T>("a"), b = any<T>("b");
  bool same = true;
  EACH(i, T) same &= at(a, i) == at(b, i);
  law_true("== compares every component", (a == b) == same);
  law_true("!= is the negation", (a != b) == !same);
  law_true("reflexive", a == a && !(a != a));
}
template <class T> static inline void nearness() {
  T a = any<T>("a"), b = any<T>("b");
  float e = law_pos("eps", 0);
  bool within = true, beyond = false;
  EACH(i, T) {
    double d = std::fabs((double)at(a, i) - at(b, i));
    within &= d < e;
    beyond |= d > e;
  }
  bool r = a.isNear(b, e);
  law_true("near when every component is within the tolerance", !within || r);
  law_true("not near when some component is beyond the tolerance", !beyond || !r);
  if (Dim<T>::N < 9) law_true("symmetric", b.isNear(a, e) == r);
  law_true("reflexive", a.isNear(a, e));
}
template <class T> static inline void deftol() {
  T a = any<T>("a"), b = any<T>("b");
  law_true("default tolerance 1e-4", a.isNear(b) == a.isNear(b, 0.0001f));
}
#define BOTH(n, T) LAW law_eq_##n() { equality<T>(); } LAW law_near_##n() { nearness<T>(); } LAW law_tol_##n() { deftol<T>(); }
BOTH(p2, Position2D)
BOTH(p3, Position3D)
BOTH(p6, Position6D)
BOTH(pose, Pose2D)
BOTH(v3, Velocity3D)
BOTH(v6, Velocity6D)
BOTH(w3, Rotation3D)
BOTH(rot, Rotation)
BOTH(tr, Transform)
LAW law_near_pav() { nearness<PositionAndVelocity>(); }
LAW law_tol_pav() { deftol<PositionAndVelocity>(); }
LAW law_eq_qu() { equality<Quaternion>(); }
LAW law_tol_qu() { deftol<Quaternion>(); }
// q and -q are the same rotation
LAW law_near_qu() {
  Quaternion a = QU("a"), b = QU("b"), m(-b.w, -b.x, -b.y, -b.z);
  float e = law_pos("eps", 0);
  bool w1 = true, w2 = true, b1 = false, b2 = false;
  for (int i = 0; i < 4; ++i) {
    double d = std::fabs((double)at(a, i) - at(b, i)), s = std::fabs((double)at(a, i) + at(b, i));
    w1 &= d < e; w2 &= s < e; b1 |= d > e; b2 |= s > e;
  }
  bool r = a.isNear(b, e);
  law_true("near up to sign", !(w1 || w2) || r);
  law_true("far for both signs", !(b1 && b2) || !r);
}
LAW law_near_qu_sign() {
  Quaternion a = QU("a"), b = QU("b"), m(-b.w, -b.x, -b.y, -b.z);
  float e = law_pos("eps", 0);
  bool r = a.isNear(b, e);
  law_true("sign does not matter", a.isNear(m, e) == r);
  law_true("symmetric", b.isNear(a, e) == r);
  law_true("reflexive", a.isNear(a, e));
}
LAW law_near_displacement() {
  Displacement a, b;
  a.P = P3("ap"); a.Q = QU("aq"); b.P = P3("bp"); b.Q = QU("bq");
  float e = law_pos("eps", 0);
  law_true("both parts", a.isNear(b, e) == (a.P.isNear(b.P, e) && a.Q.isNear(b.Q, e)));
  law_true("default tolerance", a.isNear(b) == a.isNear(b, 0.0001f));
}
LAW law_near_tv() {
  TransformAndVelocity6D a, b;
  a.T = any<Transform>("at"); a.V = V6("av"); b.T = any<Transform>("bt"); b.V = V6("bv");
  float e = law_pos("eps", 0);
  law_true("both parts", a.isNear(b, e) == (a.T.isNear(b.T, e) && a.V.isNear(b.V, e)));
  law_true("default tolerance", a.isNear(b) == a.isNear(b, 0.0001f));
}
