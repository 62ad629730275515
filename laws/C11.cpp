// Exponential and logarithm of rigid motions; interpolation.
#include "law.h"
static inline M3 skew(const V &w) { M3 r = mzero(); r.m[0][1] = -w.v[2]; r.m[0][2] = w.v[1]; r.m[1][0] = w.v[2]; r.m[1][2] = -w.v[0]; r.m[2][0] = -w.v[1]; r.m[2][1] = w.v[0]; return r; }
static inline M3 madd(const M3 &a, double k, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][j] + k * b.m[i][j]; return r; }
static inline V sc(double k, const V &a) { return vec(k * a.v[0], k * a.v[1], k * a.v[2]); }
// the left Jacobian: 1 + (1-cos t)/t [u] + (1 - sin t / t) [u]^2
static inline M3 jac(double t, const V &u) {
  M3 k = skew(u);
  return madd(madd(mid(), (1 - std::cos(t)) / t, k), 1 - std::sin(t) / t, mmul(k, k)); }
static inline Velocity6D twist(const V &l, const V &a) {
  return Velocity6D((float)l.v[0], (float)l.v[1], (float)l.v[2], (float)a.v[0], (float)a.v[1], (float)a.v[2]); }
LAW law_exp_general() {
  double t = law_range("t", 0, 0.0011, 1e6);
  V u = anyU("u"), l = v3(P3("l"));
  Transform e = velocityExponential(twist(l, sc(t, u)));
  EQ("rotation", M(e), mrod(t, u.v[0], u.v[1], u.v[2]));
  EQ("position", tv(e), mv(jac(t, u), l));
}
LAW law_exp_translation() {
  V l = v3(P3("l"));
  Transform e = velocityExponential(twist(l, vec(0, 0, 0)));
  EQ("pure translation", e, mid(), l);
}
LAW law_exp_inplace() {
  Velocity6D v = V6("v");
  Transform o = TR("junk");
  velocityExponentialInPlace(v, o);
  EQ("in place", o, velocityExponential(v));
}
LAW law_exp_inverse() {
  double t = law_range("t", 0, 0.0011, 1e6);
  V u = anyU("u"), l = v3(P3("l"));
  EQ("exp(v) exp(-v)", velocityExponential(twist(l, sc(t, u))) * velocityExponential(twist(sc(-1, l), sc(-t, u))), Transform());
}
LAW law_exp_small() {
  // below the threshold: the second-order development
  double t = law_range("t", 0, 0, 0.0009);
  V u = anyU("u"), l = v3(P3("l"));
  Transform e = velocityExponential(twist(l, sc(t, u)));
  M3 k = skew(u);
  double s = t * (1 - t * t / 6);
  EQ("rotation", M(e), madd(madd(mid(), s, k), t * t / 2, mmul(k, k)));
}
LAW law_log_general() {
  double t = law_range("t", 0, 0.0021, 3.14);
  V u = anyU("u"), l = v3(P3("l"));
  Velocity6D v = transformLogarithm(asT(mrod(t, u.v[0], u.v[1], u.v[2]), mv(jac(t, u), l)));
  EQ("angular", vec(v.wxd, v.wyd, v.wzd), sc(t, u));
  EQ("linear", vec(v.xd, v.yd, v.zd), l);
}
LAW law_log_translation() {
  V l = v3(P3("l"));
  Velocity6D v = transformLogarithm(asT(mid(), l));
  EQ("pure translation", v, twist(l, vec(0, 0, 0)));
}
LAW law_log_small() {
  double t = law_range("t", 0, 1e-6, 0.0009);
  V u = anyU("u"), l = v3(P3("l"));
  Velocity6D v = transformLogarithm(asT(mrod(t, u.v[0], u.v[1], u.v[2]), l));
  EQ("angular", vec(v.wxd, v.wyd, v.wzd), sc(t, u));
  M3 k = skew(sc(t, u));
  EQ("linear", vec(v.xd, v.yd, v.zd), mv(madd(madd(mid(), -0.5, k), 1.0 / 12.0, mmul(k, k)), l));
}
LAW law_log_half_turn() {
  V l = v3(P3("l"));
  const double pi = 3.14159265358979323846;
  Transform x = asT(mid(), l), y = x, z = x;
  x.r2_c2 = x.r3_c3 = -1; y.r1_c1 = y.r3_c3 = -1; z.r1_c1 = z.r2_c2 = -1;
  Velocity6D a = transformLogarithm(x), b = transformLogarithm(y), c = transformLogarithm(z);
  EQ("about x", a, twist(vec(l.v[0], pi / 2 * l.v[2], -pi / 2 * l.v[1]), vec(pi, 0, 0)));
  EQ("about y", b, twist(vec(-pi / 2 * l.v[2], l.v[1], pi / 2 * l.v[0]), vec(0, pi, 0)));
  EQ("about z", c, twist(vec(pi / 2 * l.v[1], -pi / 2 * l.v[0], l.v[2]), vec(0, 0, pi)));
}
LAW law_log_inplace() {
  Transform t = TR("t");
  Velocity6D o = V6("junk"), v = transformLogarithm(t);
  law_assume(t.r1_c1 + t.r2_c2 + t.r3_c3 > -0.99);
  law_assume((double)t.r1_c2 * t.r1_c2 < 10);
  transformLogarithmInPlace(t, o);
  EQ("in place", vec(o.xd, o.yd, o.zd), vec(v.xd, v.yd, v.zd));
}
LAW law_log_half_turn_any_axis() {
  // a half turn about an axis that is no coordinate axis: its exponential gives it back
  const double pi = 3.14159265358979323846;
  V u = anyU("u"), l = v3(P3("l"));
  M3 h = mzero();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) h.m[i][j] = 2 * u.v[i] * u.v[j] - (i == j);
  Velocity6D v = transformLogarithm(asT(h, l));
  law_assume(2 * u.v[0] * u.v[0] < 1.999); law_assume(2 * u.v[1] * u.v[1] < 1.999); law_assume(2 * u.v[2] * u.v[2] < 1.999);
  V w = vec(v.wxd, v.wyd, v.wzd);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) EQ("axis", w.v[i] * w.v[j], pi * pi * u.v[i] * u.v[j]);
  M3 k = skew(w);
  // exp of the result: 1 + 2/pi^2 [w]^2 on the rotation, 1 + 2/pi^2 [w] + 1/pi^2 [w]^2 on the linear part
  EQ("linear", mv(madd(madd(mid(), 2 / (pi * pi), k), 1 / (pi * pi), mmul(k, k)), vec(v.xd, v.yd, v.zd)), l);
}
LAW law_mean_first() {
  double t = law_range("t", 0, 0, 3.14);
  V u = anyU("u"), l = v3(P3("l"));
  Transform a = anyT("a"), d = asT(mrod(t, u.v[0], u.v[1], u.v[2]), l);
  EQ("starts at the first", transformMean(a, a * d, 0.0f), a);
}
LAW law_mean_screw() {
  // constant velocity motion from a to b
  double t = law_range("t", 0, 0.0021, 3.14), s = law_range("s", 0, 0.6, 1);
  V u = anyU("u"), l = v3(P3("l"));
  Transform a = anyT("a"), d = asT(mrod(t, u.v[0], u.v[1], u.v[2]), mv(jac(t, u), l));
  Transform e = asT(mrod(s * t, u.v[0], u.v[1], u.v[2]), mv(jac(s * t, u), sc(s, l)));
  EQ("screw motion", transformMean(a, a * d, (float)s), a * e);
}
LAW law_mean_last() {
  double t = law_range("t", 0, 0.0021, 3.14);
  V u = anyU("u"), l = v3(P3("l"));
  Transform a = anyT("a"), d = asT(mrod(t, u.v[0], u.v[1], u.v[2]), mv(jac(t, u), l));
  EQ("ends at the second", transformMean(a, a * d, 1.0f), a * d);
}
LAW law_mean_translation() {
  Transform a = asT(mid(), v3(P3("a"))), b = asT(mid(), v3(P3("b")));
  double s = law_range("s", 0, 0, 1);
  EQ("straight line", transformMean(a, b, (float)s), mid(), vec((1 - s) * a.r1_c4 + s * b.r1_c4, (1 - s) * a.r2_c4 + s * b.r2_c4, (1 - s) * a.r3_c4 + s * b.r3_c4));
}
LAW law_mean_in_place() {
  Transform a = anyT("a"), b = asT(M(a), v3(P3("b"))), o = TR("junk");
  double s = law_range("s", 0, 0, 1);
  transformMeanInPlace(a, b, (float)s, o);
  EQ("in place", o, transformMean(a, b, (float)s));
}
