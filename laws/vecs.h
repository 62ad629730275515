// Component views of the plain component-wise value types.
#ifndef VECS_H
#define VECS_H
#include "law.h"
static inline float &at(Position2D &v, int i) { return i ? v.y : v.x; }
static inline float &at(Position3D &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static inline float &at(Position6D &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : i == 3 ? v.wx : i == 4 ? v.wy : v.wz; }
static inline float &at(Pose2D &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.theta; }
static inline float &at(Velocity3D &v, int i) { return i == 0 ? v.xd : i == 1 ? v.yd : v.zd; }
static inline float &at(Velocity6D &v, int i) { return i == 0 ? v.xd : i == 1 ? v.yd : i == 2 ? v.zd : i == 3 ? v.wxd : i == 4 ? v.wyd : v.wzd; }
static inline float &at(Rotation3D &v, int i) { return i == 0 ? v.wx : i == 1 ? v.wy : v.wz; }
static inline float &at(Quaternion &v, int i) { return i == 0 ? v.w : i == 1 ? v.x : i == 2 ? v.y : v.z; }
static inline float &at(Rotation &v, int i) {
  return i == 0 ? v.r1_c1 : i == 1 ? v.r1_c2 : i == 2 ? v.r1_c3 : i == 3 ? v.r2_c1 : i == 4 ? v.r2_c2 : i == 5 ? v.r2_c3
       : i == 6 ? v.r3_c1 : i == 7 ? v.r3_c2 : v.r3_c3; }
static inline float &at(Transform &v, int i) {
  return i == 0 ? v.r1_c1 : i == 1 ? v.r1_c2 : i == 2 ? v.r1_c3 : i == 3 ? v.r1_c4
       : i == 4 ? v.r2_c1 : i == 5 ? v.r2_c2 : i == 6 ? v.r2_c3 : i == 7 ? v.r2_c4
       : i == 8 ? v.r3_c1 : i == 9 ? v.r3_c2 : i == 10 ? v.r3_c3 : v.r3_c4; }
static inline float &at(PositionAndVelocity &v, int i) { return i ? v.dq : v.q; }
template <class T> struct Dim;
template <> struct Dim<Position2D> { enum { N = 2 }; };
template <> struct Dim<Position3D> { enum { N = 3 }; };
template <> struct Dim<Position6D> { enum { N = 6 }; };
template <> struct Dim<Pose2D> { enum { N = 3 }; };
template <> struct Dim<Velocity3D> { enum { N = 3 }; };
template <> struct Dim<Velocity6D> { enum { N = 6 }; };
template <> struct Dim<Rotation3D> { enum { N = 3 }; };
template <> struct Dim<Quaternion> { enum { N = 4 }; };
template <> struct Dim<Rotation> { enum { N = 9 }; };
template <> struct Dim<Transform> { enum { N = 12 }; };
template <> struct Dim<PositionAndVelocity> { enum { N = 2 }; };
template <class T> static inline T any(const char *n) {
  T r; for (int i = 0; i < Dim<T>::N; ++i) at(r, i) = law_in(n, i); return r; }
#define EACH(i, T) for (int i = 0; i < (int)Dim<T>::N; ++i)
#endif
