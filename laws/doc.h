// Documents of named shapes for the scene-graph laws: the element names and the
// attribute presence are chosen (law_pick), every number is opaque.
#ifndef DOC_H
#define DOC_H
#include <almath/scenegraph/urdf.h>
#include <boost/property_tree/ptree.hpp>
#include <string>
#include "shape.h"
using namespace AL::urdf;
// text that reads as the number x (and, separated by blanks, as a vector)
static inline std::string num(double x) {
  int id = law_dtok(x, 17, 0);
  char c[12]; int n = 0;
  do { c[n++] = '0' + id % 10; id /= 10; } while (id);
  std::string t = "#d";
  while (n) t += c[--n];
  return t + ';';
}
static inline std::string num(double x, double y, double z) { return num(x) + ' ' + num(y) + ' ' + num(z); }
static inline std::string vecin(const char *n) { return num(law_in(n, 0), law_in(n, 1), law_in(n, 2)); }
// a vector, opaque up to its number k of leading zeros (3: zero)
static inline Array3d arr(const char *n, int k) {
  Array3d r{{0, 0, 0}};
  for (int i = k; i < 3; ++i) r[i] = law_in(n, i);
  if (k < 3) law_assume(r[k] != 0);
  return r;
}
static inline void EQ(const char *t, const Array3d &a, const char *n) {
  for (int i = 0; i < 3; ++i) law_eq(t, a[i], law_in(n, i)); }
static inline void EQ(const char *t, const Array3d &a, double x, double y, double z) {
  law_eq(t, a[0], x); law_eq(t, a[1], y); law_eq(t, a[2], z); }
static inline void EQ(const char *t, const Array3d &a, const Array3d &b) { EQ(t, a, b[0], b[1], b[2]); }
#endif
