// Stands for Pose::inverse and the product of poses where their users are analysed: functions with the meaning
// that C25 proves for the library's own definitions (linked with llvm-link --override).
#include <almath/scenegraph/urdf.h>
extern "C" double law_fn(const char *, int, double, double, double, double, double, double, double, double, double, double, double,
                         double) __attribute__((nothrow, const));
namespace AL {
namespace urdf {
__attribute__((noinline)) Pose Pose::inverse() const {
  const Array3d &x = xyz(), &r = rpy();
  double v[6];
  for (int i = 0; i < 6; ++i) v[i] = law_fn("pose_inverse", i, x[0], x[1], x[2], r[0], r[1], r[2], 0, 0, 0, 0, 0, 0);
  return Pose({{v[0], v[1], v[2]}}, {{v[3], v[4], v[5]}});
}
__attribute__((noinline)) Pose operator*(const Pose &a, const Pose &b) {
  const Array3d &x = a.xyz(), &r = a.rpy(), &y = b.xyz(), &s = b.rpy();
  double v[6];
  for (int i = 0; i < 6; ++i) v[i] = law_fn("pose_product", i, x[0], x[1], x[2], r[0], r[1], r[2], y[0], y[1], y[2], s[0], s[1], s[2]);
  return Pose({{v[0], v[1], v[2]}}, {{v[3], v[4], v[5]}});
}
}
}
