// A sparse Cholesky factorization that keeps the matrix it was given, read as its storage type says, and solves with it.
#ifndef FAKE_CHOLESKY_H_
#define FAKE_CHOLESKY_H_
#include <memory>
#include <string>
#include "Eigen/Dense"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/sparse_cholesky.h"
namespace w {
using namespace ceres;
using namespace ceres::internal;
struct Seen {
  int factorized = 0, solved = 0, fail_factorize = 0, fail_solve = 0;
  int type = 0;  // 1 lower, 2 upper triangular
  const double* z = nullptr;  // the solution given instead of the true one
};
inline Seen seen;
class FakeCholesky : public SparseCholesky {
 public:
  FakeCholesky() : seen_(&seen) {}
  CompressedRowSparseMatrix::StorageType StorageType() const override {
    return seen_->type == 1 ? CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR : CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR;
  }
  LinearSolverTerminationType Factorize(CompressedRowSparseMatrix* lhs, std::string* message) override {
    ++seen_->factorized;
    const int n = lhs->num_rows();
    k_ = Matrix::Zero(n, n);
    bad_ = lhs->storage_type() != StorageType() || lhs->num_cols() != n;
    for (int i = 0; i < n; ++i)
      for (int q = lhs->rows()[i]; q < lhs->rows()[i + 1]; ++q) {
        const int j = lhs->cols()[q];
        // entries of the other half are ignored, as the libraries do
        if (seen_->type == 1 ? j <= i : j >= i) {
          k_(i, j) += lhs->values()[q];
          if (i != j) k_(j, i) += lhs->values()[q];
        }
      }
    if (bad_) k_.setZero();
    if (seen_->fail_factorize) {
      *message = "no factorization";
      return static_cast<LinearSolverTerminationType>(seen_->fail_factorize);
    }
    return LinearSolverTerminationType::SUCCESS;
  }
  LinearSolverTerminationType Solve(const double* rhs, double* solution, std::string* message) override {
    ++seen_->solved;
    if (seen_->fail_solve) {
      *message = "no solution";
      return static_cast<LinearSolverTerminationType>(seen_->fail_solve);
    }
    const int n = k_.rows();
    Vector b(n);
    for (int i = 0; i < n; ++i) b(i) = rhs[i];
    Vector x = k_.llt().solve(b);
    for (int i = 0; i < n; ++i) solution[i] = x(i);
    return LinearSolverTerminationType::SUCCESS;
  }

 private:
  Seen* seen_;
  Matrix k_;
  bool bad_ = false;
};
}  // namespace w
namespace ceres::internal {
inline std::unique_ptr<SparseCholesky> SparseCholesky::Create(const LinearSolver::Options&) { return std::make_unique<w::FakeCholesky>(); }
inline SparseCholesky::~SparseCholesky() = default;
}  // namespace ceres::internal
#endif
