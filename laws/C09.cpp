// Vectors of numbers: constructing from and writing to std::vector<float>.
#include "vecs.h"
template <class T> static inline std::vector<float> vec_of(int n, const char *name) {
  std::vector<float> v(n);
  for (int i = 0; i < n; ++i) v[i] = law_in(name, i);
  return v;
}
template <class T> static inline void to_vector() {
  T a = any<T>("a");
  std::vector<float> v = a.toVector();
  law_eqi("size", (long)v.size(), Dim<T>::N);
  EACH(i, T) law_eq("component", v[i], at(a, i));
}
template <class T, int M> static inline void to_vector_out() {
  T a = any<T>("a");
  std::vector<float> v = vec_of<T>(M, "junk");
  a.toVector(v);
  law_eqi("size", (long)v.size(), Dim<T>::N);
  EACH(i, T) law_eq("component", v[i], at(a, i));
}
template <class T> static inline void from_vector() {
  std::vector<float> v = vec_of<T>(Dim<T>::N, "v");
  T a(v);
  EACH(i, T) law_eq("component", at(a, i), v[i]);
}
template <class T> static inline void round_trip() {
  T a = any<T>("a");
  T b(a.toVector());
  EACH(i, T) law_eq("round trip", at(b, i), at(a, i));
}
template <class T, int M> static inline void wrong_size() {
  std::vector<float> v = vec_of<T>(M, "v");
  T a(v), z;
  EACH(i, T) law_eq("wrong size gives the default value", at(a, i), at(z, i));
}
#define COMMON(n, T) \
  LAW law_to_##n() { to_vector<T>(); } \
  LAW law_to_empty_##n() { to_vector_out<T, 0>(); } \
  LAW law_to_full_##n() { to_vector_out<T, Dim<T>::N>(); } \
  LAW law_to_longer_##n() { to_vector_out<T, Dim<T>::N + 2>(); }
#define ONE(n, T) COMMON(n, T) \
  LAW law_from_##n() { from_vector<T>(); } \
  LAW law_trip_##n() { round_trip<T>(); } \
  LAW law_empty_##n() { wrong_size<T, 0>(); } \
  LAW law_short_##n() { wrong_size<T, Dim<T>::N - 1>(); } \
  LAW law_long_##n() { wrong_size<T, Dim<T>::N + 1>(); }
#define WRITES(n, T) LAW law_write_##n() { write_vector<T>(); }
template <class T> static inline void write_vector() {
  T a = any<T>("a");
  std::vector<float> v(Dim<T>::N + 3);
  for (int i = 0; i < (int)v.size(); ++i) v[i] = law_in("before", i);
  std::vector<float>::iterator it = v.begin() + 1;
  a.writeToVector(it);
  law_eqi("advances by the dimension", (long)(it - v.begin()), Dim<T>::N + 1);
  EACH(i, T) law_eq("component", v[i + 1], at(a, i));
  law_eq("nothing before", v[0], law_in("before", 0));
  law_eq("nothing after", v[Dim<T>::N + 1], law_in("before", Dim<T>::N + 1));
  law_eqi("size kept", (long)v.size(), Dim<T>::N + 3);
}
ONE(p2, Position2D) WRITES(p2, Position2D)
ONE(p3, Position3D) WRITES(p3, Position3D)
ONE(p6, Position6D) WRITES(p6, Position6D)
ONE(pose, Pose2D) WRITES(pose, Pose2D)
ONE(v3, Velocity3D) WRITES(v3, Velocity3D)
ONE(v6, Velocity6D) WRITES(v6, Velocity6D)
ONE(w3, Rotation3D)
ONE(qu, Quaternion)
COMMON(pav, PositionAndVelocity)
LAW law_write_tr() {
  Transform a = any<Transform>("a");
  std::vector<float> v(20);
  for (int i = 0; i < 20; ++i) v[i] = law_in("before", i);
  std::vector<float>::iterator it = v.begin() + 1;
  a.writeToVector(it);
  law_eqi("advances by 16", (long)(it - v.begin()), 17);
  for (int i = 0; i < 12; ++i) law_eq("component", v[i + 1], at(a, i));
  for (int i = 12; i < 16; ++i) law_eq("last row", v[i + 1], i == 15 ? 1.0 : 0.0);
  law_eq("nothing before", v[0], law_in("before", 0));
  law_eq("nothing after", v[17], law_in("before", 17));
  law_eqi("size kept", (long)v.size(), 20);
}
// rotations: 9 values, or the rotation part of 12 or 16
COMMON(rot, Rotation)
LAW law_from9_rot() { from_vector<Rotation>(); }
LAW law_trip_rot() { round_trip<Rotation>(); }
template <int M> static inline void rot_from_transform() {
  std::vector<float> v = vec_of<Rotation>(M, "v");
  Rotation a(v);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) law_eq("rotation part", at(a, 3 * i + j), v[4 * i + j]);
}
LAW law_from12_rot() { rot_from_transform<12>(); }
LAW law_from16_rot() { rot_from_transform<16>(); }
LAW law_empty_rot() { wrong_size<Rotation, 0>(); }
LAW law_8_rot() { wrong_size<Rotation, 8>(); }
LAW law_10_rot() { wrong_size<Rotation, 10>(); }
LAW law_11_rot() { wrong_size<Rotation, 11>(); }
LAW law_13_rot() { wrong_size<Rotation, 13>(); }
LAW law_15_rot() { wrong_size<Rotation, 15>(); }
LAW law_17_rot() { wrong_size<Rotation, 17>(); }
// transforms: written as 4x4, read from 12 or 16
LAW law_empty_tr() { wrong_size<Transform, 0>(); }
LAW law_11_tr() { wrong_size<Transform, 11>(); }
LAW law_13_tr() { wrong_size<Transform, 13>(); }
LAW law_15_tr() { wrong_size<Transform, 15>(); }
LAW law_17_tr() { wrong_size<Transform, 17>(); }
LAW law_9_tr() { wrong_size<Transform, 9>(); }
static inline void as16(const std::vector<float> &v, Transform &a) {
  law_eqi("size", (long)v.size(), 16);
  for (int i = 0; i < 12; ++i) law_eq("component", v[i], at(a, i));
  for (int i = 12; i < 16; ++i) law_eq("last row", v[i], i == 15 ? 1.0 : 0.0);
}
LAW law_to_tr() { Transform a = any<Transform>("a"); std::vector<float> v = a.toVector(); as16(v, a); }
LAW law_to_empty_tr() { Transform a = any<Transform>("a"); std::vector<float> v; a.toVector(v); as16(v, a); }
LAW law_to_longer_tr() { Transform a = any<Transform>("a"); std::vector<float> v(20, 3.f); a.toVector(v); as16(v, a); }
LAW law_to_full_tr() { Transform a = any<Transform>("a"); std::vector<float> v(16, 3.f); a.toVector(v); as16(v, a); }
LAW law_float_vector_tr() {
  Transform a = any<Transform>("a");
  std::vector<float> v = transformToFloatVector(a), w(20, 5.f);
  transformToFloatVector(a, w);
  law_eqi("size", (long)v.size(), 12);
  law_eqi("out size", (long)w.size(), 12);
  for (int i = 0; i < 12; ++i) { law_eq("component", v[i], at(a, i)); law_eq("out component", w[i], at(a, i)); }
}
template <int M> static inline void tr_from() {
  Transform t = anyT("t");
  std::vector<float> v(M);
  for (int i = 0; i < 12; ++i) v[i] = at(t, i);
  for (int i = 12; i < M; ++i) v[i] = law_in("last", i);
  EQ("a rigid transform is read back", Transform(v), t);
}
LAW law_from12_tr() { tr_from<12>(); }
LAW law_from16_tr() { tr_from<16>(); }
LAW law_trip_tr() { Transform t = anyT("t"); EQ("round trip", Transform(t.toVector()), t); }
// whatever is read, the translation is kept
LAW law_translation_tr() {
  std::vector<float> v = vec_of<Transform>(12, "v");
  Transform a(v);
  EQ("translation kept", tv(a), vec(v[3], v[7], v[11]));
}
LAW law_det_vector() {
  std::vector<float> v = vec_of<Transform>(12, "v"), w = vec_of<Transform>(16, "v");
  Transform t;
  for (int i = 0; i < 12; ++i) at(t, i) = v[i];
  law_eq("12 values", determinant(v), mdet(M(t)));
  law_eq("16 values", determinant(w), mdet(M(t)));
}
template <int M> static inline void no_det() { std::vector<float> v = vec_of<Transform>(M, "v"); law_eq("wrong size", determinant(v), 0.0); }
LAW law_no_det_0() { no_det<0>(); }
LAW law_no_det_11() { no_det<11>(); }
LAW law_no_det_13() { no_det<13>(); }
LAW law_no_det_17() { no_det<17>(); }
