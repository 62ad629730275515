// Digital filter: linear recurrence over the last inputs and outputs.
#include "law.h"
#include <almath/dsp/digitalfilter.h>
using DSP::DigitalFilter;
// y_k = sum_i b_i x_{k-n+1+i} / g + sum_j a_j y_{k-m+j} once n inputs and m outputs are known, x_k before
template <int n, int m, int steps> static inline void recurrence(const char *t, DigitalFilter &f, const double *b, const double *a, double g, const char *in) {
  double x[steps], y[steps];
  for (int k = 0; k < steps; ++k) {
    float xi = law_in(in, k);
    x[k] = xi;
    bool ready = k + 1 >= n && k >= m;
    double r = xi;
    if (ready) {
      r = 0;
      for (int i = 0; i < n; ++i) r += b[i] * x[k - n + 1 + i] / g;
      for (int j = 0; j < m; ++j) r += a[j] * y[k - m + j]; }
    y[k] = r;
    EQ(t, f.processFilter(xi), r); }
}
template <int n, int m, int steps> static inline void run() {
  std::vector<float> wi, wo;
  double b[n ? n : 1], a[m ? m : 1];
  for (int i = 0; i < n; ++i) { b[i] = law_in("b", i); wi.push_back((float)b[i]); }
  for (int i = 0; i < m; ++i) { a[i] = law_in("a", i); wo.push_back((float)a[i]); }
  double g = law_pos("g", 0);
  DigitalFilter f;
  f.configureFilter(wi, wo, (float)g);
  recurrence<n, m, steps>("recurrence", f, b, a, g, "x");
  f.resetFilter();
  recurrence<n, m, n + m + 1>("after a reset", f, b, a, g, "z");
}
LAW law_filter_1_0() { run<1, 0, 3>(); }
LAW law_filter_2_0() { run<2, 0, 4>(); }
LAW law_filter_1_1() { run<1, 1, 4>(); }
LAW law_filter_2_1() { run<2, 1, 5>(); }
LAW law_filter_1_2() { run<1, 2, 5>(); }
LAW law_filter_2_2() { run<2, 2, 5>(); }
LAW law_filter_3_2() { run<3, 2, 6>(); }
LAW law_filter_3_3() { run<3, 3, 7>(); }
LAW law_t_filter_4_4() { run<4, 4, 9>(); }
LAW law_filter_default() {
  DigitalFilter f;
  for (int k = 0; k < 3; ++k) { float x = law_in("x", k); EQ("identity", f.processFilter(x), x); }
  f.resetFilter();
  for (int k = 3; k < 5; ++k) { float x = law_in("x", k); EQ("identity", f.processFilter(x), x); }
}
LAW law_filter_copy() {
  // copies evolve independently
  std::vector<float> wi, wo;
  for (int i = 0; i < 2; ++i) wi.push_back(law_in("b", i));
  wo.push_back(law_in("a", 0));
  DigitalFilter f, g;
  f.configureFilter(wi, wo, 1.f); g.configureFilter(wi, wo, 1.f);
  for (int k = 0; k < 2; ++k) { f.processFilter(law_in("x", k)); g.processFilter(law_in("x", k)); }
  DigitalFilter h(f);
  h.processFilter(law_in("junk", 0));
  EQ("original", f.processFilter(law_in("x", 2)), g.processFilter(law_in("x", 2)));
}
// configured again, to fewer or more weights, and reset: as new
template <int n, int m, int n2, int m2, bool resetfirst> static inline void again() {
  std::vector<float> wi, wo, vi, vo;
  double b[n2 ? n2 : 1], a[m2 ? m2 : 1];
  for (int i = 0; i < n; ++i) wi.push_back(law_in("old", i));
  for (int i = 0; i < m; ++i) wo.push_back(law_in("old", 10 + i));
  for (int i = 0; i < n2; ++i) { b[i] = law_in("b", i); vi.push_back((float)b[i]); }
  for (int i = 0; i < m2; ++i) { a[i] = law_in("a", i); vo.push_back((float)a[i]); }
  double g = law_pos("g", 0);
  DigitalFilter f;
  f.configureFilter(wi, wo, (float)law_pos("h", 0));
  for (int k = 0; k < n + m; ++k) f.processFilter(law_in("w", k));
  if (resetfirst) f.resetFilter();
  f.configureFilter(vi, vo, (float)g);
  if (!resetfirst) f.resetFilter();
  recurrence<n2, m2, n2 + m2 + 2>("configured again", f, b, a, g, "x");
}
LAW law_filter_again_fewer() { again<3, 2, 2, 1, false>(); }
LAW law_filter_again_more() { again<2, 1, 3, 2, false>(); }
LAW law_filter_again_other() { again<1, 2, 2, 0, false>(); }
LAW law_filter_again_reset_fewer() { again<3, 2, 2, 1, true>(); }
LAW law_filter_again_reset_more() { again<1, 1, 2, 2, true>(); }
