// Conjugate gradients, its vector operations, the CGNR solver and its preconditioners.
#include <memory>
#include <vector>
#include "Eigen/Dense"
#include "Eigen/SparseCore"
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/cgnr_solver.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/conjugate_gradients_solver.h"
#include "ceres/context_impl.h"
#include "ceres/eigen_vector_ops.h"
#include "ceres/linear_solver.h"
#include "ceres/preconditioner.h"
#include "ceres/subset_preconditioner.h"
#include "fake_cholesky.h"

namespace w {
using namespace ceres;
using namespace ceres::internal;

class Dense : public ConjugateGradientsLinearOperator<Vector> {
 public:
  Dense(int n, const double* a) : n_(n), a_(a) {}
  void RightMultiplyAndAccumulate(const Vector& x, Vector& y) final {
    for (int i = 0; i < n_; ++i) {
      double s = 0.0;
      for (int j = 0; j < n_; ++j) s += a_[n_ * i + j] * x(j);
      y(i) += s;
    }
  }

 private:
  int n_;
  const double* a_;
};

void Cg(int n, int min_it, int max_it, int reset, double r_tol, double q_tol, const double* A, const double* P, const double* b, double* x, double* out) {
  ContextImpl context;
  ConjugateGradientsSolverOptions o;
  o.min_num_iterations = min_it;
  o.max_num_iterations = max_it;
  o.residual_reset_period = reset;
  o.r_tolerance = r_tol;
  o.q_tolerance = q_tol;
  o.context = &context;
  o.num_threads = 1;
  Dense lhs(n, A);
  Dense pre(n, P);
  Vector rhs(n), sol(n);
  for (int i = 0; i < n; ++i) rhs(i) = b[i];
  for (int i = 0; i < n; ++i) sol(i) = x[i];
  Vector* scratch[4];
  for (int i = 0; i < 4; ++i) {
    scratch[i] = new Vector(n);
  }
  LinearSolver::Summary s = ConjugateGradientsSolver<Vector>(o, lhs, rhs, pre, scratch, sol);
  for (int i = 0; i < n; ++i) x[i] = sol(i);
  out[0] = static_cast<int>(s.termination_type);
  out[1] = s.num_iterations;
}

// op: 0 norm, 1 dot, 2 a x + b y, 3 a x + b z into z, 4 copy, 5 zero
void VectorOp(int n, int threads, int op, double a, double b, const double* px, const double* py, double* pz) {
  ContextImpl context;
  if (threads > 1) context.EnsureMinimumThreads(threads);
  Vector x(n), y(n), z(n);
  for (int i = 0; i < n; ++i) x(i) = px[i];
  for (int i = 0; i < n; ++i) y(i) = py[i];
  for (int i = 0; i < n; ++i) z(i) = pz[i];
  if (op == 0) pz[0] = Norm(x, &context, threads);
  if (op == 1) pz[0] = Dot(x, y, &context, threads);
  if (op == 2) Axpby(a, x, b, y, z, &context, threads);
  if (op == 3) Axpby(a, x, b, z, z, &context, threads);
  if (op == 4) Copy(x, z, &context, threads);
  if (op == 5) SetZero(z, &context, threads);
  if (op > 1) for (int i = 0; i < n; ++i) pz[i] = z(i);
}

// s = row blocks, col blocks, cells, row sizes, col sizes, then row block, col block and position of each cell
std::unique_ptr<BlockSparseMatrix> BlockSparse(const int* s, const double* v) {
  auto* bs = new CompressedRowBlockStructure;
  const int nr = s[0], nc = s[1], cells = s[2];
  s += 3;
  int at = 0;
  bs->rows.resize(nr);
  for (int i = 0; i < nr; ++i) {
    bs->rows[i].block.size = s[i];
    bs->rows[i].block.position = at;
    at += s[i];
  }
  s += nr;
  at = 0;
  bs->cols.resize(nc);
  for (int i = 0; i < nc; ++i) {
    bs->cols[i].size = s[i];
    bs->cols[i].position = at;
    at += s[i];
  }
  s += nc;
  for (int i = 0; i < cells; ++i, s += 3) bs->rows[s[0]].cells.push_back(Cell(s[1], s[2]));
  int total = 0;
  for (auto& row : bs->rows) {
    row.nnz = 0;
    for (auto& cell : row.cells) row.nnz += row.block.size * bs->cols[cell.block_id].size;
    total += row.nnz;
    row.cumulative_nnz = total;
  }
  auto m = std::make_unique<BlockSparseMatrix>(bs);
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
  return m;
}
void Put(BlockSparseMatrix* m, const double* v) {
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
}

// y += M x of a preconditioner updated with v2 and D2 (when given) and then with v and D
void Precondition(int kind, const int* s, const double* v, const double* v2, const double* D, const double* D2, int threads, int start, int type, int fails, const double* x, double* y, int* sizes) {
  auto A = BlockSparse(s, v2 != nullptr ? v2 : v);
  A->AddTransposeBlockStructure();
  seen.type = type;
  ContextImpl context;
  if (threads > 1) context.EnsureMinimumThreads(threads);
  Preconditioner::Options options;
  options.context = &context;
  options.num_threads = threads;
  options.subset_preconditioner_start_row_block = start;
  options.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  if (kind == 1) {
    auto C = A->ToCompressedRowSparseMatrix();
    BlockCRSJacobiPreconditioner p(options, *C);
    if (v2 != nullptr) {
      p.Update(*C, D2);
      Put(A.get(), v);
      A->UpdateCompressedRowSparseMatrix(C.get());
    }
    p.Update(*C, D);
    sizes[0] = p.num_rows();
    sizes[1] = p.num_cols();
    p.RightMultiplyAndAccumulate(x, y);
    return;
  }
  std::unique_ptr<BlockSparseMatrixPreconditioner> p;
  if (kind == 0) p = std::make_unique<BlockSparseJacobiPreconditioner>(options, *A);
  if (kind == 2) p = std::make_unique<SubsetPreconditioner>(options, *A);
  if (v2 != nullptr) {
    p->Update(*A, D2);
    Put(A.get(), v);
  }
  seen.fail_factorize = fails;
  sizes[2] = p->Update(*A, D);
  sizes[0] = p->num_rows();
  sizes[1] = p->num_cols();
  sizes[3] = A->num_rows();
  sizes[4] = A->num_nonzeros();
  sizes[5] = A->block_structure()->rows.size();
  if (sizes[2]) p->RightMultiplyAndAccumulate(x, y);
}

void Cgnr(int preconditioner, const int* s, const double* v, const double* v2, const double* b, const double* b2, const double* D, int threads, int start, double* x, double* x2, double* out) {
  seen.type = 2;
  auto A = BlockSparse(s, v2 != nullptr ? v2 : v);
  A->AddTransposeBlockStructure();
  ContextImpl context;
  if (threads > 1) context.EnsureMinimumThreads(threads);
  LinearSolver::Options options;
  options.context = &context;
  options.num_threads = threads;
  options.type = CGNR;
  options.preconditioner_type = static_cast<PreconditionerType>(preconditioner);
  options.subset_preconditioner_start_row_block = start;
  options.min_num_iterations = 3;
  options.max_num_iterations = 17;
  options.residual_reset_period = 7;
  LinearSolver::PerSolveOptions per_solve;
  per_solve.D = const_cast<double*>(D);
  per_solve.q_tolerance = 0.25;
  per_solve.r_tolerance = 0.125;
  CgnrSolver solver(options);
  LinearSolver* base = &solver;
  if (v2 != nullptr) {
    base->Solve(A.get(), b2, per_solve, x2);
    Put(A.get(), v);
  }
  LinearSolver::Summary r = base->Solve(A.get(), b, per_solve, x);
  out[0] = static_cast<int>(r.termination_type);
  out[1] = r.num_iterations;
}
}  // namespace w
