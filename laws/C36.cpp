// what almath.i adds to the types for Python: their text and products
#include "shape.h"
#include <almath/dsp/digitalfilter.h>
#include <almath/dsp/pidcontroller.h>
#include <almath/geometrics/shapes3d.h>
#include <almath/tools/aldubinscurve.h>
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/tools/altrigonometry.h>
#include <almath/tools/avoidfootcollision.h>
#include <almath/types/alaxismask.h>
#include <almath/types/aldisplacement.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/altransformandvelocity6d.h>
#include <almath/types/occupancymapparams.h>
#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include "items.h"
using namespace AL::Math;
// %g and %d conversions write their argument as streams do; the result must fit
static inline void piece(std::string &o, double x) { std::ostringstream s; s << x; o += s.str(); }
static inline void piece(std::string &o, float x) { piece(o, double(x)); }
static inline void piece(std::string &o, int x) { std::ostringstream s; s << x; o += s.str(); }
static inline void piece(std::string &o, size_t x) { piece(o, int(x)); }
static inline void piece(std::string &o, const char *x) { o += x; }
static inline size_t room(double) { return 13; }
static inline size_t room(const char *s) { return std::strlen(s); }
static inline void put(std::string &o, size_t &n, const char *f) {
  for (; *f; ++f) {
    if (*f == '%') { if (f[1] != '%') { law_true("an argument for each conversion", false); return; } ++f; }
    o += *f;
    ++n;
  }
}
template <class A, class... R> static inline void put(std::string &o, size_t &n, const char *f, A a, R... r) {
  for (; *f; ++f) {
    if (*f != '%') { o += *f; ++n; continue; }
    if (f[1] == '%') { o += '%'; ++n; ++f; continue; }
    const char *c = f + 1;
    while (*c == 'l' || *c == 'z') ++c;
    law_true("conversion of numbers or text", *c == 'g' || *c == 'd' || *c == 'i' || *c == 'u' || *c == 's');
    piece(o, a);
    n += room(a);
    put(o, n, c + 1, r...);
    return;
  }
  law_true("a conversion for each argument", false);
}
static inline void room_for(size_t n, size_t size) { law_true("the text fits whatever the values", n < size); }
template <size_t N, class... A> static int text_of(char (&buf)[N], const char *f, A... a) {
  std::string o;
  size_t n = 0;
  put(o, n, f, a...);
  room_for(n, N);
  std::memcpy(buf, o.c_str(), o.size() + 1);
  return int(o.size());
}
template <size_t N, class... A> static int text_of_n(char (&buf)[N], size_t, const char *f, A... a) { return text_of(buf, f, a...); }
#define sprintf text_of
#define snprintf text_of_n
#include <almath_i.hpp>
#undef sprintf
#undef snprintf
static bool balanced(const std::string &s) {
  std::string open;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (c == '(' || c == '[') open += c == '(' ? ')' : ']';
    if (c == ')' || c == ']') {
      if (open.empty() || open[open.size() - 1] != c) return false;
      open.erase(open.size() - 1);
    }
  }
  return open.empty();
}
static double printed(double x) {
  std::ostringstream s;
  s << x;
  std::istringstream in(s.str());
  double y = 0;
  in >> y;
  return y;
}
// `whole` first components are integers, written exactly
static void holds(const std::string &s, const char *type, const char *const *names, const double *x, int n, int whole = 0) {
  std::string begin = std::string(type);
  law_true("names the type", s.compare(0, begin.size(), begin) == 0);
  law_true("balanced brackets", balanced(s));
  std::vector<Item> r = items(s);
  law_eqi("one number per component", r.size(), n);
  for (int i = 0; i < n && i < int(r.size()); ++i) {
    law_eq("components in order", r[i].value, i < whole ? x[i] : printed(x[i]));
    if (names && names[i]) law_true("each under its name", r[i].name == names[i]);
  }
}
template <class T> static void fill(T &t, double *x, int n) {
  static_assert(sizeof(T) % sizeof(float) == 0, "floats");
  float f[sizeof(T) / sizeof(float)];
  for (int i = 0; i < n; ++i) x[i] = f[i] = law_in("x", i);
  __builtin_memcpy((void *)&t, f, sizeof(T));
}
#define N(...) static const char *const names[] = {__VA_ARGS__}
#define REPR(T, n, ...) LAW law_py_##T() { N(__VA_ARGS__); T t; double x[n]; fill(t, x, n); holds(ext___repr__(&t), #T "(", names, x, n); for (int i = 0; i < n; ++i) law_eq("value unchanged", ((const float *)&t)[i], x[i]); }
REPR(Pose2D, 3, "x", "y", "theta")
REPR(Position2D, 2, "x", "y")
REPR(Position3D, 3, "x", "y", "z")
REPR(Position6D, 6, "x", "y", "z", "wx", "wy", "wz")
REPR(PositionAndVelocity, 2, "q", "dq")
REPR(Quaternion, 4, "w", "x", "y", "z")
REPR(Rotation3D, 3, "wx", "wy", "wz")
REPR(Velocity3D, 3, "xd", "yd", "zd")
REPR(Velocity6D, 6, "xd", "yd", "zd", "wxd", "wyd", "wzd")
static void lines(const std::string &s, int rows, int cols) {
  size_t at = 0;
  for (int i = 0; i < rows; ++i) {
    size_t e = s.find('\n', at);
    law_true("a line for each row", (e == std::string::npos) == (i == rows - 1));
    law_eqi("numbers of a row", items(s.substr(at, e == std::string::npos ? e : e - at)).size(), cols);
    if (e == std::string::npos) return;
    at = e + 1;
  }
}
#define MATRIX(T, rows, cols) LAW law_py_##T() { T t; double x[rows * cols]; fill(t, x, rows * cols); holds(ext___repr__(&t), #T "(", nullptr, x, rows * cols); } \
LAW law_py_str_##T() { T t; double x[rows * cols]; fill(t, x, rows * cols); std::string s = ext___str__(&t); holds(s, "[[", nullptr, x, rows * cols); lines(s, rows, cols); }
MATRIX(Rotation, 3, 3)
MATRIX(Transform, 3, 4)
LAW law_py_TransformAndVelocity6D() {
  N(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, "xd", "yd", "zd", "wxd", "wyd", "wzd");
  TransformAndVelocity6D t;
  double x[18];
  for (int i = 0; i < 18; ++i) x[i] = law_in("x", i);
  Transform T;
  Velocity6D v;
  T.r1_c1 = x[0]; T.r1_c2 = x[1]; T.r1_c3 = x[2]; T.r1_c4 = x[3]; T.r2_c1 = x[4]; T.r2_c2 = x[5]; T.r2_c3 = x[6]; T.r2_c4 = x[7]; T.r3_c1 = x[8]; T.r3_c2 = x[9]; T.r3_c3 = x[10]; T.r3_c4 = x[11];
  v.xd = x[12]; v.yd = x[13]; v.zd = x[14]; v.wxd = x[15]; v.wyd = x[16]; v.wzd = x[17];
  t.T = T;
  t.V = v;
  holds(ext___repr__(&t), "TransformAndVelocity6D(", names, x, 18);
}
LAW law_py_Displacement() {
  N("x", "y", "z", "w", "x", "y", "z");
  double x[7];
  for (int i = 0; i < 7; ++i) x[i] = law_in("x", i);
  Displacement d(Position3D(x[0], x[1], x[2]), Quaternion(x[3], x[4], x[5], x[6]));
  holds(ext___repr__(&d), "Displacement(", names, x, 7);
}
LAW law_py_OccupancyMapParams() {
  N("size", "metersPerPixel", "x", "y");
  OccupancyMapParams p(1, 1.f, Position2D());
  p.size = law_ini("n", 0);
  p.metersPerPixel = law_in("x", 1);
  p.originOffset = Position2D(law_in("x", 2), law_in("x", 3));
  double x[4] = {double(law_ini("n", 0)), law_in("x", 1), law_in("x", 2), law_in("x", 3)};
  holds(ext___repr__(&p), "OccupancyMapParams(", names, x, 4, 1);
}
LAW law_py_Point2Di() {
  N("x", "y");
  Point2Di p(law_ini("n", 0), law_ini("n", 1));
  double x[2] = {double(law_ini("n", 0)), double(law_ini("n", 1))};
  holds(ext___repr__(&p), "Point2Di(", names, x, 2, 2);
}
// lists
LAW law_py_list_float() {
  int n = law_pick("n", 4);
  double x[3];
  std::vector<float> v;
  for (int i = 0; i < n; ++i) { v.push_back(law_in("x", i)); x[i] = v[i]; }
  holds(ext___repr__(&v), "vectorFloat([", nullptr, x, n);
}
template <class T> static void list(const char *type, const char *element, const char *const *names, int k) {
  int n = law_pick("n", 4);
  double x[18];
  std::vector<T> v(n);
  for (int i = 0; i < n; ++i) {
    float f[sizeof(T) / sizeof(float)];
    for (int j = 0; j < k; ++j) x[k * i + j] = f[j] = law_in("x", k * i + j);
    __builtin_memcpy((void *)&v[i], f, sizeof(T));
  }
  std::string s = ext___repr__(&v);
  holds(s, type, nullptr, x, n * k);
  std::vector<Item> r = items(s);
  for (int i = 0; i < n * k && i < int(r.size()); ++i) law_true("each under its name", r[i].name == names[i % k]);
  int found = 0;
  for (size_t at = 0; (at = s.find(element, at)) != std::string::npos; ++at) ++found;
  law_eqi("elements", found, n + 1);  // the name of the list ends with the one of its elements
}
LAW law_py_list_Position2D() { N("x", "y"); list<Position2D>("vectorPosition2D([", "Position2D(", names, 2); }
LAW law_py_list_Pose2D() { N("x", "y", "theta"); list<Pose2D>("vectorPose2D([", "Pose2D(", names, 3); }
LAW law_py_list_Position6D() { N("x", "y", "z", "wx", "wy", "wz"); list<Position6D>("vectorPosition6D([", "Position6D(", names, 6); }
// products with the number on the left, and action of matrices
#define RMUL(T, n) LAW law_py_rmul_##T() { T t; double x[n]; fill(t, x, n); float k = law_in("k", 0); T r = ext___rmul__(&t, k); const float *f = (const float *)&r; for (int i = 0; i < n; ++i) law_eq("scaled", f[i], k * x[i]); }
RMUL(Pose2D, 3)
RMUL(Position2D, 2)
RMUL(Position3D, 3)
RMUL(Position6D, 6)
RMUL(Velocity3D, 3)
RMUL(Velocity6D, 6)
LAW law_py_mul_Rotation() {
  Rotation t;
  double x[9];
  fill(t, x, 9);
  Position3D p(law_in("p", 0), law_in("p", 1), law_in("p", 2)), r = ext___mul__(&t, p);
  law_eq("x", r.x, x[0] * p.x + x[1] * p.y + x[2] * p.z);
  law_eq("y", r.y, x[3] * p.x + x[4] * p.y + x[5] * p.z);
  law_eq("z", r.z, x[6] * p.x + x[7] * p.y + x[8] * p.z);
}
LAW law_py_mul_Transform() {
  Transform t;
  double x[12];
  fill(t, x, 12);
  Position3D p(law_in("p", 0), law_in("p", 1), law_in("p", 2)), r = ext___mul__(&t, p);
  law_eq("x", r.x, x[0] * p.x + x[1] * p.y + x[2] * p.z + x[3]);
  law_eq("y", r.y, x[4] * p.x + x[5] * p.y + x[6] * p.z + x[7]);
  law_eq("z", r.z, x[8] * p.x + x[9] * p.y + x[10] * p.z + x[11]);
}
