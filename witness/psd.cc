// Never compiled to code: inverse of positive semidefinite matrices, triangular index.
#include "ceres/invert_psd_matrix.h"
#include "ceres/parallel_utils.h"
namespace w {
template <int N>
void Inv(int full, int n, const double* a, double* out) {
  using M = typename ceres::EigenTypes<N, N>::Matrix;
  M m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) m(i, j) = a[i * n + j];
  const M r = ceres::internal::InvertPSDMatrix<N>(full != 0, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) out[i * n + j] = r(i, j);
}
template void Inv<2>(int, int, const double*, double*);
template void Inv<3>(int, int, const double*, double*);
template void Inv<4>(int, int, const double*, double*);
template void Inv<5>(int, int, const double*, double*);
template void Inv<-1>(int, int, const double*, double*);
void Pair(int k, int n, int* i, int* j) { ceres::internal::LinearIndexToUpperTriangularIndex(k, n, i, j); }
}  // namespace w
