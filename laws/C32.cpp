// Text of values: every component, under its name, in order
#include "shape.h"
#include <almath/tools/almathio.h>
#include <sstream>
#include <string>
#include <vector>
using namespace AL::Math;
#include "items.h"
// what a reader of the text of a number gets: as many digits as the stream writes
static double printed(double x, int digits) {
  std::ostringstream s;
  s.precision(digits);
  s << float(x);
  std::istringstream in(s.str());
  double y = 0;
  in >> y;
  return y;
}
static void holds(const std::string &s, const char *const *names, const float *x, int n, int digits) {
  std::vector<Item> r = items(s);
  law_eqi("one number per component", r.size(), n);
  for (int i = 0; i < n && i < int(r.size()); ++i) {
    law_eq("components in order", r[i].value, printed(x[i], digits));
    if (names) law_true("each under its name", r[i].name == names[i]);
  }
}
template <class T> static void shown(const T &t, const char *const *names, const float *x, int n) {
  int digits = law_pick("digits", 2) ? 6 : 3;
  std::ostringstream s;
  s.precision(digits);
  std::ostream &o = s << t;
  law_true("the stream given", &o == &s);
  holds(s.str(), names, x, n, digits);
  // one after the other
  std::ostringstream two;
  two.precision(digits);
  two << t << t;
  law_eqi("twice", items(two.str()).size(), 2 * n);
}
template <class T> static void text(const T &t, const char *const *names, const float *x, int n) { holds(toSpaceSeparated(t), names, x, n, 6); }
template <class T> static void fill(T &t, float *x, int n) { for (int i = 0; i < n; ++i) x[i] = law_in("x", i); __builtin_memcpy((void *)&t, x, n * sizeof(float)); }
#define N(...) static const char *const names[] = {__VA_ARGS__}
#define SHOW(T, n, both, ...) LAW law_show_##T() { N(__VA_ARGS__); float x[n]; T t; static_assert(sizeof(t) == n * sizeof(float), "floats"); fill(t, x, n); shown(t, names, x, n); both }
SHOW(Pose2D, 3, , "x", "y", "theta")
SHOW(Position2D, 2, , "x", "y")
SHOW(Position3D, 3, text(t, names, x, 3);, "x", "y", "z")
SHOW(Position6D, 6, text(t, names, x, 6);, "x", "y", "z", "wx", "wy", "wz")
SHOW(PositionAndVelocity, 2, , "q", "dq")
SHOW(Rotation3D, 3, text(t, names, x, 3);, "wx", "wy", "wz")
SHOW(Velocity3D, 3, , "xd", "yd", "zd")
SHOW(Velocity6D, 6, text(t, names, x, 6);, "xd", "yd", "zd", "wxd", "wyd", "wzd")
SHOW(Quaternion, 4, text(t, names, x, 4);, "w", "x", "y", "z")
// matrices: rows on lines of their own
static void rows(const std::string &s, int n) {
  int lines = 0;
  size_t at = 0;
  for (size_t e; (e = s.find('\n', at)) != std::string::npos; at = e + 1) { law_eqi("numbers of a row", items(s.substr(at, e - at)).size(), n); ++lines; }
  law_eqi("rows", lines, n);
  law_true("nothing after", at == s.size());
}
LAW law_show_Rotation() {
  Rotation t;
  float x[9];
  fill(t, x, 9);
  shown(t, nullptr, x, 9);
  std::ostringstream s;
  s << t;
  rows(s.str(), 3);
}
LAW law_show_Transform() {
  Transform t;
  float x[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1};
  fill(t, x, 12);
  shown(t, nullptr, x, 16);
  text(t, nullptr, x, 16);
  std::ostringstream s;
  s << t;
  rows(s.str(), 4);
}
LAW law_show_TransformAndVelocity6D() {
  TransformAndVelocity6D t;
  float x[12], y[6], z[22] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1};
  fill(t.T, x, 12);
  for (int i = 0; i < 6; ++i) y[i] = law_in("y", i);
  __builtin_memcpy((void *)&t.V, y, sizeof(y));
  for (int i = 0; i < 12; ++i) z[i] = x[i];
  for (int i = 0; i < 6; ++i) z[16 + i] = y[i];
  N("", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "xd", "yd", "zd", "wxd", "wyd", "wzd");
  shown(t, names, z, 22);
}
