// Views of the E and F part of a block matrix, the implicit Schur complement, its preconditioners and the solver that uses them.
#include <memory>
#include <vector>
#include "Eigen/Dense"
#include "Eigen/SparseCore"
namespace EigenForCeres = Eigen;  // the name schur_eliminator_impl.h gives Eigen
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/context_impl.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/iterative_schur_complement_solver.h"
#include "ceres/linear_solver.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/preconditioner.h"
#include "ceres/schur_jacobi_preconditioner.h"
#include "ceres/partitioned_matrix_view_impl.h"
#include "ceres/schur_eliminator_impl.h"

template class ceres::internal::SchurEliminator<-1, -1, -1>;

namespace w {
using namespace ceres;
using namespace ceres::internal;

// s = row blocks, col blocks, cells, row sizes, col sizes, then row block, col block and position of each cell
std::unique_ptr<BlockSparseMatrix> BlockSparse(const int* s, const double* v) {
  auto* bs = new CompressedRowBlockStructure;
  const int nr = s[0], nc = s[1], cells = s[2];
  s += 3;
  int at = 0;
  bs->rows.resize(nr);
  for (int i = 0; i < nr; ++i) {
    bs->rows[i].block.size = s[i];
    bs->rows[i].block.position = at;
    at += s[i];
  }
  s += nr;
  at = 0;
  bs->cols.resize(nc);
  for (int i = 0; i < nc; ++i) {
    bs->cols[i].size = s[i];
    bs->cols[i].position = at;
    at += s[i];
  }
  s += nc;
  for (int i = 0; i < cells; ++i, s += 3) bs->rows[s[0]].cells.push_back(Cell(s[1], s[2]));
  // nonzeros up to and with each row, as the matrix constructor and AddTransposeBlockStructure count them
  int total = 0;
  for (auto& row : bs->rows) {
    row.nnz = 0;
    for (auto& cell : row.cells) row.nnz += row.block.size * bs->cols[cell.block_id].size;
    total += row.nnz;
    row.cumulative_nnz = total;
  }
  auto m = std::make_unique<BlockSparseMatrix>(bs);
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
  return m;
}
void Put(BlockSparseMatrix* m, const double* v) {
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
}
void PutBlocks(const BlockSparseMatrix& m, double* out) {
  const int n = m.num_cols();
  for (int i = 0; i < n * n; ++i) out[i] = 0.0;
  for (const auto& row : m.block_structure()->rows)
    for (const auto& cell : row.cells) {
      const Block& col = m.block_structure()->cols[cell.block_id];
      for (int a = 0; a < row.block.size; ++a)
        for (int b = 0; b < col.size; ++b) out[(row.block.position + a) * n + col.position + b] += m.values()[cell.position + a * col.size + b];
    }
}
LinearSolver::Options MakeOptions(const BlockSparseMatrix& A, int eliminate, int threads, ContextImpl* context) {
  LinearSolver::Options options;
  options.context = context;
  options.num_threads = threads;
  if (threads > 1) context->EnsureMinimumThreads(threads);
  options.elimination_groups.push_back(eliminate);
  options.elimination_groups.push_back(A.block_structure()->cols.size() - eliminate);
  return options;
}

template <int R, int E, int F>
void View(const int* s, int eliminate, const double* v, int threads, int op, const double* x, double* y, int* sizes) {
  auto A = BlockSparse(s, v);
  A->AddTransposeBlockStructure();
  ContextImpl context;
  const LinearSolver::Options options = MakeOptions(*A, eliminate, threads, &context);
  PartitionedMatrixView<R, E, F> view(options, *A);
  sizes[0] = view.num_col_blocks_e();
  sizes[1] = view.num_col_blocks_f();
  sizes[2] = view.num_cols_e();
  sizes[3] = view.num_cols_f();
  sizes[4] = view.num_rows();
  sizes[5] = view.num_cols();
  if (op == 0) view.RightMultiplyAndAccumulateE(x, y);
  if (op == 1) view.RightMultiplyAndAccumulateF(x, y);
  if (op == 2) view.LeftMultiplyAndAccumulateE(x, y);
  if (op == 3) view.LeftMultiplyAndAccumulateF(x, y);
  if (op == 4) PutBlocks(*view.CreateBlockDiagonalEtE(), y);
  if (op == 5) PutBlocks(*view.CreateBlockDiagonalFtF(), y);
  if (op == 6 || op == 7) {  // created for one matrix, updated for another
    Put(A.get(), x);
    auto d = op == 6 ? view.CreateBlockDiagonalEtE() : view.CreateBlockDiagonalFtF();
    Put(A.get(), v);
    if (op == 6) view.UpdateBlockDiagonalEtE(d.get());
    if (op == 7) view.UpdateBlockDiagonalFtF(d.get());
    PutBlocks(*d, y);
  }
}
using ViewFn = void (*)(const int*, int, const double*, int, int, const double*, double*, int*);
ViewFn use1[] = {View<-1, -1, -1>, View<2, 2, 2>, View<2, 3, -1>, View<2, -1, -1>, View<3, 3, 3>, View<2, 2, 3>};

// op: 0 rhs, 1 product, 2 power series operator, 3 back substitution, 4 and 5 block diagonals, 6 left product, 7 power series preconditioner
void Implicit(const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, const double* D2, int threads, int preconditioner, int spse, int terms,
              double tolerance, int op, const double* x, double* y, int* sizes) {
  auto A = BlockSparse(s, v2 != nullptr ? v2 : v);
  A->AddTransposeBlockStructure();
  ContextImpl context;
  LinearSolver::Options options = MakeOptions(*A, eliminate, threads, &context);
  options.preconditioner_type = static_cast<PreconditionerType>(preconditioner);
  options.use_spse_initialization = spse;
  ImplicitSchurComplement isc(options);
  if (v2 != nullptr) {
    isc.Init(*A, D2, b2);
    if (op == 1) {
      std::vector<double> scratch(isc.num_rows(), 0.0);
      isc.RightMultiplyAndAccumulate(x, scratch.data());
    }
    Put(A.get(), v);
  }
  isc.Init(*A, D, b);
  sizes[0] = isc.num_rows();
  sizes[1] = isc.num_cols();
  if (op == 0) for (int i = 0; i < isc.num_rows(); ++i) y[i] = isc.rhs()[i];
  if (op == 1) isc.RightMultiplyAndAccumulate(x, y);
  if (op == 2) isc.InversePowerSeriesOperatorRightMultiplyAccumulate(x, y);
  if (op == 3) isc.BackSubstitute(x, y);
  if (op == 4) PutBlocks(*isc.block_diagonal_EtE_inverse(), y);
  if (op == 5) PutBlocks(*isc.block_diagonal_FtF_inverse(), y);
  if (op == 6) isc.LeftMultiplyAndAccumulate(x, y);
  if (op == 7) {
    PowerSeriesExpansionPreconditioner p(&isc, terms, tolerance, Preconditioner::Options(options));
    p.Update(*A, D);
    sizes[0] = p.num_rows();
    sizes[1] = p.num_cols();
    p.RightMultiplyAndAccumulate(x, y);
  }
}

// the whole solver; conjugate gradients is left open
void Solve(int preconditioner, int spse, int terms, double tolerance, const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, double* x, double* x2) {
  auto A = BlockSparse(s, v2 != nullptr ? v2 : v);
  A->AddTransposeBlockStructure();
  ContextImpl context;
  LinearSolver::Options options = MakeOptions(*A, eliminate, 1, &context);
  options.type = ITERATIVE_SCHUR;
  options.preconditioner_type = static_cast<PreconditionerType>(preconditioner);
  options.use_spse_initialization = spse;
  options.max_num_spse_iterations = terms;
  options.spse_tolerance = tolerance;
  options.min_num_iterations = 3;
  options.max_num_iterations = 17;
  options.residual_reset_period = 7;
  LinearSolver::PerSolveOptions per_solve;
  per_solve.D = const_cast<double*>(D);
  per_solve.q_tolerance = 0.25;
  per_solve.r_tolerance = 0.125;
  IterativeSchurComplementSolver solver(options);
  LinearSolver* base = &solver;
  if (v2 != nullptr) {
    base->Solve(A.get(), b2, per_solve, x2);
    Put(A.get(), v);
  }
  base->Solve(A.get(), b, per_solve, x);
}
}  // namespace w
