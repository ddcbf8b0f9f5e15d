// The direct linear solvers: dense and sparse normal equations and QR, the factorizations behind them and their refinement.
#include <memory>
#include <string>
#include <vector>
#include "Eigen/Dense"
#include "Eigen/SparseCore"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/cgnr_solver.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/dense_normal_cholesky_solver.h"
#include "ceres/dense_qr_solver.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_sparse_normal_cholesky_solver.h"
#include "ceres/iterative_schur_complement_solver.h"
#include "ceres/linear_solver.h"
#include "ceres/schur_complement_solver.h"
#include "ceres/sparse_cholesky.h"
#include "ceres/sparse_normal_cholesky_solver.h"

namespace w {
using namespace ceres;
using namespace ceres::internal;

// o = linear solver type, dense and sparse library, ordering, dynamic sparsity, mixed precision, refinement steps, threads, explicit Schur complement
LinearSolver::Options Set(const int* o, ContextImpl* context) {
  LinearSolver::Options options;
  options.context = context;
  options.type = static_cast<LinearSolverType>(o[0]);
  options.dense_linear_algebra_library_type = static_cast<DenseLinearAlgebraLibraryType>(o[1]);
  options.sparse_linear_algebra_library_type = static_cast<SparseLinearAlgebraLibraryType>(o[2]);
  options.ordering_type = static_cast<OrderingType>(o[3]);
  options.dynamic_sparsity = o[4] != 0;
  options.use_mixed_precision_solves = o[5] != 0;
  options.max_num_refinement_iterations = o[6];
  options.num_threads = o[7];
  options.use_explicit_schur_complement = o[8] != 0;
  options.elimination_groups.push_back(1);
  options.elimination_groups.push_back(1);
  return options;
}
void Note(const LinearSolver::Summary& s, double* out) {
  out[0] = static_cast<int>(s.termination_type);
  out[1] = s.num_iterations;
  out[2] = s.message.empty() ? 0 : 1;
}

// first with rows2 x cols2 values a2, then with a
void Dense(const int* o, int rows2, int cols2, const double* a2, const double* b2, const double* D2, double* x2, double* out2, int rows, int cols, const double* a, const double* b, const double* D, double* x, double* out, double* after) {
  ContextImpl context;
  std::unique_ptr<LinearSolver> solver = LinearSolver::Create(Set(o, &context));
  if (a2 != nullptr) {
    DenseSparseMatrix m(rows2, cols2);
    for (int i = 0; i < rows2; ++i)
      for (int j = 0; j < cols2; ++j) (*m.mutable_matrix())(i, j) = a2[i * cols2 + j];
    LinearSolver::PerSolveOptions per;
    per.D = const_cast<double*>(D2);
    Note(solver->Solve(&m, b2, per, x2), out2);
  }
  DenseSparseMatrix m(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) (*m.mutable_matrix())(i, j) = a[i * cols + j];
  LinearSolver::PerSolveOptions per;
  per.D = const_cast<double*>(D);
  Note(solver->Solve(&m, b, per, x), out);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) after[i * cols + j] = m.matrix()(i, j);
}

// s = row blocks, col blocks, cells, row sizes, col sizes, then row block, col block and position of each cell
std::unique_ptr<BlockSparseMatrix> BlockSparse(const int* s, const double* v) {
  auto* bs = new CompressedRowBlockStructure;
  const int nr = s[0], nc = s[1], cells = s[2];
  s += 3;
  int at = 0;
  bs->rows.resize(nr);
  for (int i = 0; i < nr; ++i) {
    bs->rows[i].block.size = s[i];
    bs->rows[i].block.position = at;
    at += s[i];
  }
  s += nr;
  at = 0;
  bs->cols.resize(nc);
  for (int i = 0; i < nc; ++i) {
    bs->cols[i].size = s[i];
    bs->cols[i].position = at;
    at += s[i];
  }
  s += nc;
  for (int i = 0; i < cells; ++i, s += 3) bs->rows[s[0]].cells.push_back(Cell(s[1], s[2]));
  int total = 0;
  for (auto& row : bs->rows) {
    row.nnz = 0;
    for (auto& cell : row.cells) row.nnz += row.block.size * bs->cols[cell.block_id].size;
    total += row.nnz;
    row.cumulative_nnz = total;
  }
  auto m = std::make_unique<BlockSparseMatrix>(bs);
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
  return m;
}

void Sparse(const int* o, const int* s, const double* v2, const double* b2, const double* D2, double* x2, double* out2, const double* v, const double* b, const double* D, double* x, double* out, double* after) {
  ContextImpl context;
  std::unique_ptr<LinearSolver> solver = LinearSolver::Create(Set(o, &context));
  auto A = BlockSparse(s, v2 != nullptr ? v2 : v);
  A->AddTransposeBlockStructure();
  if (v2 != nullptr) {
    LinearSolver::PerSolveOptions per;
    per.D = const_cast<double*>(D2);
    Note(solver->Solve(A.get(), b2, per, x2), out2);
    for (int i = 0; i < A->num_nonzeros(); ++i) A->mutable_values()[i] = v[i];
  }
  LinearSolver::PerSolveOptions per;
  per.D = const_cast<double*>(D);
  Note(solver->Solve(A.get(), b, per, x), out);
  after[0] = A->num_rows();
  after[1] = A->num_nonzeros();
  after[2] = A->block_structure()->rows.size();
  for (int i = 0; i < A->num_nonzeros(); ++i) after[3 + i] = A->values()[i];
}

// the structure changes between the two calls: first s2, then s; col blocks when blocks is set
void Dynamic(const int* o, int blocks, const int* s2, const double* v2, const double* b2, const double* D2, double* x2, double* out2, const int* s, const double* v, const double* b, const double* D, double* x, double* out, double* after) {
  ContextImpl context;
  std::unique_ptr<LinearSolver> solver = LinearSolver::Create(Set(o, &context));
  for (int k = s2 != nullptr ? 0 : 1; k < 2; ++k) {
    auto A = BlockSparse(k == 0 ? s2 : s, k == 0 ? v2 : v);
    auto C = A->ToCompressedRowSparseMatrix();
    if (!blocks) {
      C->mutable_row_blocks()->clear();
      C->mutable_col_blocks()->clear();
    }
    LinearSolver::PerSolveOptions per;
    per.D = const_cast<double*>(k == 0 ? D2 : D);
    Note(solver->Solve(C.get(), k == 0 ? b2 : b, per, k == 0 ? x2 : x), k == 0 ? out2 : out);
    if (k == 0) continue;
    after[0] = C->num_rows();
    after[1] = C->num_nonzeros();
    after[2] = C->num_cols();
    for (int i = 0; i < C->num_nonzeros(); ++i) after[3 + i] = C->values()[i];
  }
}

int Kind(const int* o) {
  ContextImpl context;
  std::unique_ptr<LinearSolver> p = LinearSolver::Create(Set(o, &context));
  LinearSolver* s = p.get();
  if (dynamic_cast<CgnrSolver*>(s) != nullptr) return 1;
  if (dynamic_cast<SparseSchurComplementSolver*>(s) != nullptr) return 2;
  if (dynamic_cast<DenseSchurComplementSolver*>(s) != nullptr) return 3;
  if (dynamic_cast<IterativeSchurComplementSolver*>(s) != nullptr) return 4;
  if (dynamic_cast<SparseNormalCholeskySolver*>(s) != nullptr) return 5;
  if (dynamic_cast<DynamicSparseNormalCholeskySolver*>(s) != nullptr) return 6;
  if (dynamic_cast<DenseQRSolver*>(s) != nullptr) return 7;
  if (dynamic_cast<DenseNormalCholeskySolver*>(s) != nullptr) return 8;
  return 0;
}
int WithoutGroups(int type) { return LinearSolver::LinearSolverForZeroEBlocks(static_cast<LinearSolverType>(type)); }
}  // namespace w
