// Angle reduction, angular means and clipping.
#include "law.h"
static inline void reduced(double r, double x) {
  law_true("above -pi", r > -M_PI);
  law_true("at most pi", r <= M_PI);
  EQ("same angle (sin)", std::sin(r), std::sin(x));
  EQ("same angle (cos)", std::cos(r), std::cos(x));
}
LAW law_modulo() { float x = law_in("x", 0); reduced(modulo2PI(x), x); }
LAW law_modulo_in_place() { float x = law_in("x", 0), y = x; modulo2PIInPlace(y); law_eq("same as the value form", y, modulo2PI(x)); }
LAW law_modulo_identity() {
  float x = law_range("x", 0, -3.1415926, 3.1415926);
  law_eq("an angle already in range is kept", modulo2PI(x), x);
}
// means
template <int N> static inline void mean() {
  std::vector<float> a(N), w(N);
  double c = 0, s = 0;
  for (int i = 0; i < N; ++i) {
    a[i] = law_in("a", i); w[i] = law_pos("w", i);
    c += (double)w[i] * std::cos(a[i]); s += (double)w[i] * std::sin(a[i]);
  }
  law_assume(c * c + s * s > 1e-5);
  float m = weightedMeanAngle(a, w);
  reduced(m, m);
  // m is the direction of the weighted sum of the unit vectors
  double n = std::sqrt(c * c + s * s);
  law_eq("direction (cos)", std::cos(m) * n, c);
  law_eq("direction (sin)", std::sin(m) * n, s);
}
LAW law_mean_1() { mean<1>(); }
LAW law_mean_2() { mean<2>(); }
LAW law_mean_3() { mean<3>(); }
template <int N> static inline void plain() {
  std::vector<float> a(N), w(N, 1.f);
  for (int i = 0; i < N; ++i) a[i] = law_in("a", i);
  double c = 0, s = 0;
  for (int i = 0; i < N; ++i) { c += std::cos(a[i]); s += std::sin(a[i]); }
  law_assume(c * c + s * s > 1e-5);
  law_eq("unit weights", meanAngle(a), weightedMeanAngle(a, w));
}
LAW law_plain_1() { plain<1>(); }
LAW law_plain_2() { plain<2>(); }
LAW law_plain_3() { plain<3>(); }
template <int N, int M> static inline void sizes() {
  std::vector<float> a(N, 0.5f), w(M, 1.f);
  law_throws_iff("as many weights as angles", true);
  weightedMeanAngle(a, w);
}
LAW law_sizes_12() { sizes<1, 2>(); }
LAW law_sizes_21() { sizes<2, 1>(); }
LAW law_sizes_01() { sizes<0, 1>(); }
LAW law_sizes_00() { sizes<0, 0>(); }
LAW law_weights() {
  std::vector<float> a(2, 0.5f), w(2);
  w[0] = law_in("w", 0); w[1] = law_in("w", 1);
  law_assume(w[0] > 1 || w[0] <= 0); law_assume(w[1] > 1 || w[1] <= 0);
  law_throws_iff("weights are positive", w[0] <= 0 || w[1] <= 0);
  weightedMeanAngle(a, w);
}
LAW law_undefined_mean() {
  std::vector<float> a(2);
  a[0] = law_in("a", 0); a[1] = a[0] + (float)M_PI;
  law_throws_iff("opposite angles have no mean", true);
  meanAngle(a);
}
// clipping
LAW law_clip() {
  float lo = law_in("lo", 0), hi = law_in("hi", 0), x = law_in("x", 0), y = x;
  law_assume(lo <= hi);
  bool c = clipData(lo, hi, y);
  law_true("not below", y >= lo);
  law_true("not above", y <= hi);
  law_true("told", c == (x < lo || x > hi));
  if (x >= lo && x <= hi) law_eq("kept inside", y, x);
  if (x < lo) law_eq("low limit", y, lo);
  if (x > hi) law_eq("high limit", y, hi);
}
template <int N> static inline void clips() {
  float lo = law_in("lo", 0), hi = law_in("hi", 0);
  law_assume(lo <= hi);
  std::vector<float> v(N);
  for (int i = 0; i < N; ++i) v[i] = law_in("x", i);
  bool c = clipData(lo, hi, v), any = false;
  law_eqi("size kept", (long)v.size(), N);
  for (int i = 0; i < N; ++i) {
    float y = law_in("x", i);
    any |= clipData(lo, hi, y);
    law_eq("each component", v[i], y);
  }
  law_true("told when any is clipped", c == any);
}
LAW law_clips_0() { clips<0>(); }
LAW law_clips_1() { clips<1>(); }
LAW law_clips_3() { clips<3>(); }
template <int N, int M> static inline void clipss() {
  float lo = law_in("lo", 0), hi = law_in("hi", 0);
  law_assume(lo <= hi);
  std::vector<std::vector<float> > v(2);
  v[0].resize(N); v[1].resize(M);
  for (int i = 0; i < N; ++i) v[0][i] = law_in("x", i);
  for (int i = 0; i < M; ++i) v[1][i] = law_in("y", i);
  bool c = clipData(lo, hi, v), any = false;
  for (int i = 0; i < N; ++i) { float y = law_in("x", i); any |= clipData(lo, hi, y); law_eq("each component", v[0][i], y); }
  for (int i = 0; i < M; ++i) { float y = law_in("y", i); any |= clipData(lo, hi, y); law_eq("each component", v[1][i], y); }
  law_true("told when any is clipped", c == any);
}
LAW law_clipss_12() { clipss<1, 2>(); }
LAW law_clipss_20() { clipss<2, 0>(); }
LAW law_clipss_02() { clipss<0, 2>(); }
