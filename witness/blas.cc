// Never compiled to code: small dense kernels.
#include "ceres/small_blas.h"
namespace w {
constexpr int D = Eigen::Dynamic;
using namespace ceres::internal;
template <int ra, int ca, int rb, int cb, int op>
void MM(const double* A, int m, int n, const double* B, int p, int q, double* C, int sr, int sc, int R, int S) {
  MatrixMatrixMultiply<ra, ca, rb, cb, op>(A, m, n, B, p, q, C, sr, sc, R, S);
}
template <int ra, int ca, int rb, int cb, int op>
void MTM(const double* A, int m, int n, const double* B, int p, int q, double* C, int sr, int sc, int R, int S) {
  MatrixTransposeMatrixMultiply<ra, ca, rb, cb, op>(A, m, n, B, p, q, C, sr, sc, R, S);
}
template <int ra, int ca, int op>
void MV(const double* A, int m, int n, const double* b, double* c) {
  MatrixVectorMultiply<ra, ca, op>(A, m, n, b, c);
}
template <int ra, int ca, int op>
void MTV(const double* A, int m, int n, const double* b, double* c) {
  MatrixTransposeVectorMultiply<ra, ca, op>(A, m, n, b, c);
}
#define MAT(f, a, b, c, d) template void f<a, b, c, d, -1>(const double*, int, int, const double*, int, int, double*, int, int, int, int); \
  template void f<a, b, c, d, 0>(const double*, int, int, const double*, int, int, double*, int, int, int, int); \
  template void f<a, b, c, d, 1>(const double*, int, int, const double*, int, int, double*, int, int, int, int);
#define VEC(f, a, b) template void f<a, b, -1>(const double*, int, int, const double*, double*); \
  template void f<a, b, 0>(const double*, int, int, const double*, double*); template void f<a, b, 1>(const double*, int, int, const double*, double*);
MAT(MM, D, D, D, D)
MAT(MM, 2, 3, 3, 4)
MAT(MM, 2, 3, 3, D)
MAT(MM, D, 3, 3, 9)
MAT(MM, 3, D, D, 6)
MAT(MM, 2, 2, 2, 7)
MAT(MTM, D, D, D, D)
MAT(MTM, 2, 3, 2, 4)
MAT(MTM, 2, 3, 2, D)
MAT(MTM, 2, D, 2, 9)
MAT(MTM, D, 3, D, 6)
MAT(MTM, 2, 2, 2, 7)
VEC(MV, D, D)
VEC(MV, 2, 3)
VEC(MV, 2, D)
VEC(MV, D, 3)
VEC(MV, 7, 5)
VEC(MTV, D, D)
VEC(MTV, 2, 3)
VEC(MTV, 2, D)
VEC(MTV, D, 3)
VEC(MTV, 5, 7)
}  // namespace w
