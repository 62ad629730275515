// specification matrices, independent of the library
#ifndef MAT_H
#define MAT_H
#include <cmath>
// ---- specification matrices (independent of the library) -----------------
// a proper rotation, written from scratch: Rz(c) Ry(b) Rx(a)
struct M3 { double m[3][3]; };
struct V { double v[3]; };
static inline M3 mzero() { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = 0; return r; }
static inline M3 mid() { M3 r = mzero(); for (int i = 0; i < 3; ++i) r.m[i][i] = 1; return r; }
static inline M3 mmul(const M3 &a, const M3 &b) {
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    r.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
  return r; }
static inline M3 mtr(const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
static inline V mv(const M3 &a, const V &b) {
  V r; for (int i = 0; i < 3; ++i) r.v[i] = a.m[i][0] * b.v[0] + a.m[i][1] * b.v[1] + a.m[i][2] * b.v[2]; return r; }
static inline V vec(double x, double y, double z) { V r; r.v[0] = x; r.v[1] = y; r.v[2] = z; return r; }
static inline V cross(const V &a, const V &b) {
  return vec(a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]); }
static inline double dot(const V &a, const V &b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
static inline M3 mrx(double t) { M3 r = mid(); r.m[1][1] = std::cos(t); r.m[1][2] = -std::sin(t); r.m[2][1] = std::sin(t); r.m[2][2] = std::cos(t); return r; }
static inline M3 mry(double t) { M3 r = mid(); r.m[0][0] = std::cos(t); r.m[0][2] = std::sin(t); r.m[2][0] = -std::sin(t); r.m[2][2] = std::cos(t); return r; }
static inline M3 mrz(double t) { M3 r = mid(); r.m[0][0] = std::cos(t); r.m[0][1] = -std::sin(t); r.m[1][0] = std::sin(t); r.m[1][1] = std::cos(t); return r; }
static inline M3 mrpy(double wx, double wy, double wz) { return mmul(mmul(mrz(wz), mry(wy)), mrx(wx)); }
// Rodrigues: rotation of angle t about the unit axis n
static inline M3 mrod(double t, double x, double y, double z) {
  double c = std::cos(t), s = std::sin(t), k = 1 - c;
  M3 r;
  r.m[0][0] = c + x * x * k; r.m[0][1] = x * y * k - z * s; r.m[0][2] = x * z * k + y * s;
  r.m[1][0] = x * y * k + z * s; r.m[1][1] = c + y * y * k; r.m[1][2] = y * z * k - x * s;
  r.m[2][0] = x * z * k - y * s; r.m[2][1] = y * z * k + x * s; r.m[2][2] = c + z * z * k;
  return r; }
// quaternion (w, x, y, z) -> rotation matrix, unit quaternion
static inline M3 mquat(double w, double x, double y, double z) {
  M3 r;
  r.m[0][0] = w * w + x * x - y * y - z * z; r.m[0][1] = 2 * (x * y - w * z); r.m[0][2] = 2 * (x * z + w * y);
  r.m[1][0] = 2 * (x * y + w * z); r.m[1][1] = w * w - x * x + y * y - z * z; r.m[1][2] = 2 * (y * z - w * x);
  r.m[2][0] = 2 * (x * z - w * y); r.m[2][1] = 2 * (y * z + w * x); r.m[2][2] = w * w - x * x - y * y + z * z;
  return r; }
static inline void EQ(const char *t, const M3 &a, const M3 &b) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) law_eq(t, a.m[i][j], b.m[i][j]); }
static inline void EQ(const char *t, const V &a, const V &b) { for (int i = 0; i < 3; ++i) law_eq(t, a.v[i], b.v[i]); }
static inline double mdet(const M3 &a) {
  return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) +
         a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]); }
#endif
