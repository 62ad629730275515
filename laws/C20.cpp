// Dubins curves: arc, tangent segment, arc, the segment being the shortest of the four.
#include "law.h"
#include <almath/tools/aldubinscurve.h>
#include <stdexcept>
static inline double n2(const V &a) { return a.v[0] * a.v[0] + a.v[1] * a.v[1]; }
struct Tangents { double len2[4]; V c1[4], c2[4]; };
// circles turned to the left / right at both ends; squared lengths of the common tangents
static inline Tangents tangents(const Pose2D &t, double r) {
  V l1 = vec(0, r, 0), r1 = vec(0, -r, 0);
  V l2 = vec(t.x - r * std::sin((double)t.theta), t.y + r * std::cos((double)t.theta), 0);
  V r2 = vec(t.x + r * std::sin((double)t.theta), t.y - r * std::cos((double)t.theta), 0);
  Tangents g;
  g.c1[0] = l1; g.c2[0] = l2; g.c1[1] = l1; g.c2[1] = r2; g.c1[2] = r1; g.c2[2] = l2; g.c1[3] = r1; g.c2[3] = r2;
  for (int i = 0; i < 4; ++i) {
    V d = vec(g.c2[i].v[0] - g.c1[i].v[0], g.c2[i].v[1] - g.c1[i].v[1], 0);
    g.len2[i] = n2(d) - (i == 1 || i == 2 ? 4 * r * r : 0); }
  return g; }
LAW law_dubins_domain() {
  float r = law_pos("r", 0);
  Pose2D t = Q2("t");
  law_throws_iff("target too close", std::sqrt((double)t.x * t.x + (double)t.y * t.y) < 4 * (double)r);
  std::vector<Pose2D> s = getDubinsSolutions(t, r);
  law_eqi("three checkpoints", s.size(), 3);
  EQ("the last is the target", s[2], t);
}
LAW law_dubins_close_error() {
  float r = law_pos("r", 0);
  bool caught = false;
  try { getDubinsSolutions(Pose2D(r, r, law_in("t", 0)), r); } catch (const std::invalid_argument &) { caught = true; }
  law_true("invalid_argument", caught);
}
// the target seen from the circles of kind K: their centres are D (cos p, sin p) apart
template <int K> static inline void best() {
  float r = law_range("r", 0, 1e-6, 1e6), th = law_in("th", 0);
  double D = law_range("D", 0, 1e-6, 1e6), p = law_in("p", 0), s1 = K < 2 ? 1 : -1, s2 = K % 2 == 0 ? 1 : -1;
  double st = std::sin((double)th), ct = std::cos((double)th);
  Pose2D t((float)(D * std::cos(p) + s2 * r * st), (float)(s1 * r + D * std::sin(p) - s2 * r * ct), th);
  law_assume(std::sqrt((double)t.x * t.x + (double)t.y * t.y) >= 4 * (double)r);
  Tangents g = tangents(t, r);
  for (int i = 0; i < 4; ++i) if (i != K) law_assume(i < K ? g.len2[K] < g.len2[i] : g.len2[K] <= g.len2[i]);
  std::vector<Pose2D> s = getDubinsSolutions(t, r);
  double c = std::cos((double)s[0].theta), n = std::sin((double)s[0].theta);
  double len = K == 0 || K == 3 ? D : std::sqrt(D * D - 4 * r * r);
  // heading along the segment, whose length is that of the shortest tangent
  law_eq("segment x", ((double)s[1].x - s[0].x), c * len);
  law_eq("segment y", ((double)s[1].y - s[0].y), n * len);
  law_eq("same heading at both ends (cos)", std::cos((double)s[1].theta), c);
  law_eq("same heading at both ends (sin)", std::sin((double)s[1].theta), n);
  // the segment leaves the first circle and enters the second one tangentially, turning the right way
  law_eq("first circle x", s[0].x - s1 * r * n, g.c1[K].v[0]);
  law_eq("first circle y", s[0].y + s1 * r * c, g.c1[K].v[1]);
  law_eq("second circle x", s[1].x - s2 * r * n, g.c2[K].v[0]);
  law_eq("second circle y", s[1].y + s2 * r * c, g.c2[K].v[1]);
}
LAW law_dubins_lsl() { best<0>(); }
LAW law_dubins_lsr() { best<1>(); }
LAW law_dubins_rsl() { best<2>(); }
LAW law_dubins_rsr() { best<3>(); }
