// Vocabulary of the law witnesses.  A law is a C++ function that calls the
// library's public API on opaque inputs and states which values must be equal.
// Laws are compiled and linked with /repo's sources and analysed as LLVM IR by
// /verif/engine; they are never executed.
#ifndef LAW_H
#define LAW_H
#include <almath/types/alaxismask.h>
#include <almath/types/aldisplacement.h>
#include <almath/types/alpose2d.h>
#include <almath/types/alposition2d.h>
#include <almath/types/alposition3d.h>
#include <almath/types/alposition6d.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/alquaternion.h>
#include <almath/types/alrotation.h>
#include <almath/types/alrotation3d.h>
#include <almath/types/altransform.h>
#include <almath/types/altransformandvelocity6d.h>
#include <almath/types/alvelocity3d.h>
#include <almath/types/alvelocity6d.h>
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <cmath>
#include <vector>

#define NT __attribute__((nothrow))
extern "C" {
// opaque inputs (one atom per name and index)
float law_in(const char *, int) NT __attribute__((const));
float law_pos(const char *, int) NT __attribute__((const));     // > 0
float law_nonneg(const char *, int) NT __attribute__((const));  // >= 0
float law_unit(const char *, int) NT __attribute__((const));    // in [-1, 1]
float law_range(const char *, int, double, double) NT __attribute__((const));
float law_quarter(int) NT __attribute__((const));                // k pi / 2, exactly
int law_ini(const char *, int) NT __attribute__((const));
bool law_inb(const char *, int) NT __attribute__((const));
void *law_opaque(const char *, int) NT __attribute__((const));
// obligations
void law_eq(const char *, double, double) NT;
void law_eqi(const char *, long, long) NT;
void law_true(const char *, bool) NT;
void law_finite(const char *, double) NT;  // neither infinite nor NaN
void law_assume(bool) NT;
void law_throws_iff(const char *, bool) NT;
// from here on roots, arc cosines and logarithms must stay within their domain
void law_domain() NT;
void law_domain_div() NT;  // and denominators are not zero
void law_may_abort() NT;  // assertions are preconditions here
// the argument escapes (keeps stores visible)
void law_touch(const void *) NT;
}
#define LAW extern "C" __attribute__((used)) void

using namespace AL::Math;

// ---- opaque values -------------------------------------------------------
static inline Position2D P2(const char *n) { Position2D r; r.x = law_in(n, 0); r.y = law_in(n, 1); return r; }
static inline Position3D P3(const char *n) { Position3D r; r.x = law_in(n, 0); r.y = law_in(n, 1); r.z = law_in(n, 2); return r; }
static inline Position6D P6(const char *n) {
  Position6D r; r.x = law_in(n, 0); r.y = law_in(n, 1); r.z = law_in(n, 2);
  r.wx = law_in(n, 3); r.wy = law_in(n, 4); r.wz = law_in(n, 5); return r; }
static inline Pose2D Q2(const char *n) { Pose2D r; r.x = law_in(n, 0); r.y = law_in(n, 1); r.theta = law_in(n, 2); return r; }
static inline Velocity3D V3(const char *n) { Velocity3D r; r.xd = law_in(n, 0); r.yd = law_in(n, 1); r.zd = law_in(n, 2); return r; }
static inline Velocity6D V6(const char *n) {
  Velocity6D r; r.xd = law_in(n, 0); r.yd = law_in(n, 1); r.zd = law_in(n, 2);
  r.wxd = law_in(n, 3); r.wyd = law_in(n, 4); r.wzd = law_in(n, 5); return r; }
static inline Rotation3D W3(const char *n) { Rotation3D r; r.wx = law_in(n, 0); r.wy = law_in(n, 1); r.wz = law_in(n, 2); return r; }
static inline Quaternion QU(const char *n) { Quaternion r; r.w = law_in(n, 0); r.x = law_in(n, 1); r.y = law_in(n, 2); r.z = law_in(n, 3); return r; }
static inline Rotation RO(const char *n) {
  Rotation r; r.r1_c1 = law_in(n, 0); r.r1_c2 = law_in(n, 1); r.r1_c3 = law_in(n, 2);
  r.r2_c1 = law_in(n, 3); r.r2_c2 = law_in(n, 4); r.r2_c3 = law_in(n, 5);
  r.r3_c1 = law_in(n, 6); r.r3_c2 = law_in(n, 7); r.r3_c3 = law_in(n, 8); return r; }
static inline Transform TR(const char *n) {
  Transform t; t.r1_c1 = law_in(n, 0); t.r1_c2 = law_in(n, 1); t.r1_c3 = law_in(n, 2); t.r1_c4 = law_in(n, 3);
  t.r2_c1 = law_in(n, 4); t.r2_c2 = law_in(n, 5); t.r2_c3 = law_in(n, 6); t.r2_c4 = law_in(n, 7);
  t.r3_c1 = law_in(n, 8); t.r3_c2 = law_in(n, 9); t.r3_c3 = law_in(n, 10); t.r3_c4 = law_in(n, 11); return t; }

#include "mat.h"
static inline M3 M(const Rotation &r) {
  M3 m; m.m[0][0] = r.r1_c1; m.m[0][1] = r.r1_c2; m.m[0][2] = r.r1_c3; m.m[1][0] = r.r2_c1; m.m[1][1] = r.r2_c2;
  m.m[1][2] = r.r2_c3; m.m[2][0] = r.r3_c1; m.m[2][1] = r.r3_c2; m.m[2][2] = r.r3_c3; return m; }
static inline M3 M(const Transform &r) {
  M3 m; m.m[0][0] = r.r1_c1; m.m[0][1] = r.r1_c2; m.m[0][2] = r.r1_c3; m.m[1][0] = r.r2_c1; m.m[1][1] = r.r2_c2;
  m.m[1][2] = r.r2_c3; m.m[2][0] = r.r3_c1; m.m[2][1] = r.r3_c2; m.m[2][2] = r.r3_c3; return m; }
static inline V tv(const Transform &t) { return vec(t.r1_c4, t.r2_c4, t.r3_c4); }
static inline V v3(const Position3D &p) { return vec(p.x, p.y, p.z); }
static inline V v3(const Velocity3D &p) { return vec(p.xd, p.yd, p.zd); }
static inline Rotation asR(const M3 &m) {
  Rotation r; r.r1_c1 = (float)m.m[0][0]; r.r1_c2 = (float)m.m[0][1]; r.r1_c3 = (float)m.m[0][2];
  r.r2_c1 = (float)m.m[1][0]; r.r2_c2 = (float)m.m[1][1]; r.r2_c3 = (float)m.m[1][2];
  r.r3_c1 = (float)m.m[2][0]; r.r3_c2 = (float)m.m[2][1]; r.r3_c3 = (float)m.m[2][2]; return r; }
static inline Transform asT(const M3 &m, const V &v) {
  Transform r; r.r1_c1 = (float)m.m[0][0]; r.r1_c2 = (float)m.m[0][1]; r.r1_c3 = (float)m.m[0][2];
  r.r2_c1 = (float)m.m[1][0]; r.r2_c2 = (float)m.m[1][1]; r.r2_c3 = (float)m.m[1][2];
  r.r3_c1 = (float)m.m[2][0]; r.r3_c2 = (float)m.m[2][1]; r.r3_c3 = (float)m.m[2][2];
  r.r1_c4 = (float)v.v[0]; r.r2_c4 = (float)v.v[1]; r.r3_c4 = (float)v.v[2]; return r; }
// opaque proper rotation / rigid transform (three free angles)
static inline M3 anyM(const char *n) { return mrpy(law_in(n, 10), law_in(n, 11), law_in(n, 12)); }
static inline Rotation anyR(const char *n) { return asR(anyM(n)); }
static inline Transform anyT(const char *n) { return asT(anyM(n), vec(law_in(n, 0), law_in(n, 1), law_in(n, 2))); }

// opaque unit vector / unit quaternion (surjective parametrisations of the spheres)
static inline V anyU(const char *n) {
  double a = law_in(n, 20), b = law_in(n, 21);
  return vec(std::cos(a) * std::cos(b), std::cos(a) * std::sin(b), std::sin(a)); }
static inline Quaternion anyQ(const char *n) {
  double a = law_in(n, 20), b = law_in(n, 21), c = law_in(n, 22);
  return Quaternion((float)(std::cos(a) * std::cos(b)), (float)(std::cos(a) * std::sin(b)), (float)(std::sin(a) * std::cos(c)),
                    (float)(std::sin(a) * std::sin(c))); }
static inline Position3D p3(const V &v) { return Position3D((float)v.v[0], (float)v.v[1], (float)v.v[2]); }
// ---- equalities ----------------------------------------------------------
static inline void EQ(const char *t, double a, double b) { law_eq(t, a, b); }
static inline void EQ(const char *t, const Position2D &a, const Position2D &b) { law_eq(t, a.x, b.x); law_eq(t, a.y, b.y); }
static inline void EQ(const char *t, const Position3D &a, const Position3D &b) { law_eq(t, a.x, b.x); law_eq(t, a.y, b.y); law_eq(t, a.z, b.z); }
static inline void EQ(const char *t, const Pose2D &a, const Pose2D &b) { law_eq(t, a.x, b.x); law_eq(t, a.y, b.y); law_eq(t, a.theta, b.theta); }
static inline void EQ(const char *t, const Rotation3D &a, const Rotation3D &b) { law_eq(t, a.wx, b.wx); law_eq(t, a.wy, b.wy); law_eq(t, a.wz, b.wz); }
static inline void EQ(const char *t, const Velocity3D &a, const Velocity3D &b) { law_eq(t, a.xd, b.xd); law_eq(t, a.yd, b.yd); law_eq(t, a.zd, b.zd); }
static inline void EQ(const char *t, const Velocity6D &a, const Velocity6D &b) {
  law_eq(t, a.xd, b.xd); law_eq(t, a.yd, b.yd); law_eq(t, a.zd, b.zd); law_eq(t, a.wxd, b.wxd); law_eq(t, a.wyd, b.wyd); law_eq(t, a.wzd, b.wzd); }
static inline void EQ(const char *t, const Position6D &a, const Position6D &b) {
  law_eq(t, a.x, b.x); law_eq(t, a.y, b.y); law_eq(t, a.z, b.z); law_eq(t, a.wx, b.wx); law_eq(t, a.wy, b.wy); law_eq(t, a.wz, b.wz); }
static inline void EQ(const char *t, const Quaternion &a, const Quaternion &b) { law_eq(t, a.w, b.w); law_eq(t, a.x, b.x); law_eq(t, a.y, b.y); law_eq(t, a.z, b.z); }
static inline void EQ(const char *t, const Rotation &a, const Rotation &b) { EQ(t, M(a), M(b)); }
static inline void EQ(const char *t, const Rotation &a, const M3 &b) { EQ(t, M(a), b); }
static inline void EQ(const char *t, const Transform &a, const Transform &b) { EQ(t, M(a), M(b)); EQ(t, tv(a), tv(b)); }
static inline void EQ(const char *t, const Transform &a, const M3 &m, const V &v) { EQ(t, M(a), m); EQ(t, tv(a), v); }
#endif
