#ifndef ROTATION_PART_H
#define ROTATION_PART_H
#include "mat.h"
#include <Eigen/Geometry>
// The rotation part of an Affine transform is, in Eigen, its nearest rotation (from a singular value
// decomposition).  Read here on the matrices for which this is the matrix itself: the proper rotations.
namespace Eigen {
namespace internal {
template <> struct transform_rotation_impl<Affine> {
  template <typename T> static inline const typename T::LinearMatrixType run(const T &t) {
    typename T::LinearMatrixType l = t.linear();
    M3 m;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.m[i][j] = l(i, j);
    EQ("nearest rotation of a rotation", mmul(m, mtr(m)), mid());
    law_eq("nearest rotation of a rotation", mdet(m), 1);
    return l;
  }
};
}
}
#endif
