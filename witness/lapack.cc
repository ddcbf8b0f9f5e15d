// The dense factorizations with LAPACK, which the configuration of this tree leaves out.
#include "ceres/internal/config.h"
#undef CERES_NO_LAPACK
#include "ceres/dense_cholesky.cc"
#include "ceres/dense_qr.cc"

namespace w {
using namespace ceres;
using namespace ceres::internal;
LinearSolver::Options Lapack(int mixed, int refine) {
  LinearSolver::Options options;
  options.dense_linear_algebra_library_type = LAPACK;
  options.use_mixed_precision_solves = mixed != 0;
  options.max_num_refinement_iterations = refine;
  return options;
}
// n2 x n2 with a2 first, when given
void LapackCholesky(int mixed, int refine, int n2, double* a2, const double* b2, double* x2, double* out2, int n, double* a, const double* b, double* x, double* out) {
  std::unique_ptr<DenseCholesky> c = DenseCholesky::Create(Lapack(mixed, refine));
  std::string message;
  if (a2 != nullptr) out2[0] = static_cast<int>(c->FactorAndSolve(n2, a2, b2, x2, &message));
  std::string message2;
  out[0] = static_cast<int>(c->FactorAndSolve(n, a, b, x, &message2));
  out[1] = message2.empty() ? 0 : 1;
}
void LapackQR(int m2, int n2, double* a2, const double* b2, double* x2, double* out2, int m, int n, double* a, const double* b, double* x, double* out) {
  std::unique_ptr<DenseQR> c = DenseQR::Create(Lapack(0, 0));
  std::string message;
  if (a2 != nullptr) out2[0] = static_cast<int>(c->FactorAndSolve(m2, n2, a2, b2, x2, &message));
  std::string message2;
  out[0] = static_cast<int>(c->FactorAndSolve(m, n, a, b, x, &message2));
  out[1] = message2.empty() ? 0 : 1;
}
}  // namespace w
