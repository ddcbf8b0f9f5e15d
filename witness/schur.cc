// Schur elimination: builds a block matrix from a description in integers, eliminates the first column blocks and writes the result out.
#include <memory>
#include <vector>
#include "Eigen/Dense"
#include "Eigen/SparseCore"
namespace EigenForCeres = Eigen;  // the name schur_eliminator_impl.h gives Eigen
#include "absl/container/btree_set.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/context_impl.h"
#include "ceres/detect_structure.h"
#include "ceres/linear_solver.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/schur_eliminator.h"
#include "ceres/schur_complement_solver.h"
#include "ceres/schur_templates.h"
#include "ceres/schur_eliminator_impl.h"

namespace w {
using namespace ceres;
using namespace ceres::internal;

// s = row blocks, col blocks, cells, row sizes, col sizes, then row block, col block and position of each cell
std::unique_ptr<BlockSparseMatrix> BlockSparse(const int* s, const double* v) {
  auto* bs = new CompressedRowBlockStructure;
  const int nr = s[0], nc = s[1], cells = s[2];
  s += 3;
  int at = 0;
  bs->rows.resize(nr);
  for (int i = 0; i < nr; ++i) {
    bs->rows[i].block.size = s[i];
    bs->rows[i].block.position = at;
    at += s[i];
  }
  s += nr;
  at = 0;
  bs->cols.resize(nc);
  for (int i = 0; i < nc; ++i) {
    bs->cols[i].size = s[i];
    bs->cols[i].position = at;
    at += s[i];
  }
  s += nc;
  for (int i = 0; i < cells; ++i, s += 3) bs->rows[s[0]].cells.push_back(Cell(s[1], s[2]));
  auto m = std::make_unique<BlockSparseMatrix>(bs);
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
  return m;
}
void Put(BlockSparseMatrix* m, const double* v) {
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
}
std::vector<Block> Tail(const BlockSparseMatrix& m, int first) {
  std::vector<Block> b;
  int at = 0;
  for (int i = first; i < m.block_structure()->cols.size(); ++i) {
    b.push_back(Block(m.block_structure()->cols[i].size, at));
    at += b.back().size;
  }
  return b;
}
// every present cell of the upper block triangle, written out densely
void ShowCells(BlockRandomAccessMatrix* m, const std::vector<Block>& blocks, int* present, double* out) {
  const int n = m->num_rows();
  for (int i = 0; i < blocks.size(); ++i) {
    for (int j = i; j < blocks.size(); ++j) {
      int r, c, rs, cs;
      CellInfo* cell = m->GetCell(i, j, &r, &c, &rs, &cs);
      present[i * blocks.size() + j] = cell != nullptr;
      if (cell == nullptr) continue;
      for (int a = 0; a < blocks[i].size; ++a)
        for (int b = 0; b < blocks[j].size; ++b) out[(blocks[i].position + a) * n + blocks[j].position + b] = cell->values[(r + a) * cs + c + b];
    }
  }
}
std::unique_ptr<BlockRandomAccessMatrix> Lhs(int kind, const std::vector<Block>& blocks, const int* pairs, int npairs, ContextImpl* context, int threads) {
  if (kind == 0) return std::make_unique<BlockRandomAccessDenseMatrix>(blocks, context, threads);
  if (kind == 1) return std::make_unique<BlockRandomAccessDiagonalMatrix>(blocks, context, threads);
  absl::btree_set<std::pair<int, int>> p;
  for (int i = 0; i < npairs; ++i) p.emplace(pairs[2 * i], pairs[2 * i + 1]);
  return std::make_unique<BlockRandomAccessSparseMatrix>(blocks, p, context, threads);
}

template <typename S>
void Run(S* schur, const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, int threads, int full, int kind,
         const int* pairs, int npairs, ContextImpl* context, int use_rhs, int* present, double* lhs_out, double* rhs, const double* z, double* y) {
  auto A = BlockSparse(s, v);
  const auto blocks = Tail(*A, eliminate);
  auto lhs = Lhs(kind, blocks, pairs, npairs, context, threads);
  schur->Init(eliminate, full, A->block_structure());
  if (v2 != nullptr) {
    Put(A.get(), v2);
    schur->Eliminate(BlockSparseMatrixData(*A), b2, D, lhs.get(), use_rhs ? rhs : nullptr);
    schur->BackSubstitute(BlockSparseMatrixData(*A), b2, D, z, y);
    Put(A.get(), v);
    for (int i = 0; i < A->num_cols(); ++i) y[i] = 0.0;
  }
  schur->Eliminate(BlockSparseMatrixData(*A), b, D, lhs.get(), use_rhs ? rhs : nullptr);
  if (use_rhs) schur->BackSubstitute(BlockSparseMatrixData(*A), b, D, z, y);
  ShowCells(lhs.get(), blocks, present, lhs_out);
}
template <int R, int E, int F>
void Eliminate(const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, int threads, int full, int kind,
               const int* pairs, int npairs, int use_rhs, int* present, double* lhs_out, double* rhs, const double* z, double* y) {
  ContextImpl context;
  if (threads > 1) context.EnsureMinimumThreads(threads);
  LinearSolver::Options options;
  options.num_threads = threads;
  options.context = &context;
  SchurEliminator<R, E, F> schur(options);
  Run(&schur, s, eliminate, v, v2, b, b2, D, threads, full, kind, pairs, npairs, &context, use_rhs, present, lhs_out, rhs, z, y);
}
template <int R, int E, int F>
void OneFBlock(const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, int threads, int full, int kind,
               const int* pairs, int npairs, int use_rhs, int* present, double* lhs_out, double* rhs, const double* z, double* y) {
  ContextImpl context;
  SchurEliminatorForOneFBlock<R, E, F> schur;
  Run(&schur, s, eliminate, v, v2, b, b2, D, 1, full, kind, pairs, npairs, &context, use_rhs, present, lhs_out, rhs, z, y);
}
using Fn = void (*)(const int*, int, const double*, const double*, const double*, const double*, const double*, int, int, int, const int*, int, int, int*, double*, double*, const double*, double*);
Fn use1[] = {Eliminate<-1, -1, -1>, Eliminate<2, 2, 2>, Eliminate<2, 3, -1>, Eliminate<2, -1, -1>, Eliminate<3, 3, 3>, Eliminate<2, 2, 3>, OneFBlock<2, 2, 2>, OneFBlock<2, 3, 4>, OneFBlock<3, 2, 1>};

// block random access matrices
void Access(int kind, const int* sizes, int n, const int* pairs, int npairs, int threads, int op, const double* x, double* y, int* present, double* out, const double* v) {
  ContextImpl context;
  if (threads > 1) context.EnsureMinimumThreads(threads);
  std::vector<Block> blocks;
  int at = 0;
  for (int i = 0; i < n; ++i) {
    blocks.push_back(Block(sizes[i], at));
    at += sizes[i];
  }
  auto m = Lhs(kind, blocks, pairs, npairs, &context, threads);
  m->SetZero();
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      int r, c, rs, cs;
      CellInfo* cell = m->GetCell(i, j, &r, &c, &rs, &cs);
      if (cell == nullptr) continue;
      for (int a = 0; a < sizes[i]; ++a)
        for (int b = 0; b < sizes[j]; ++b) cell->values[(r + a) * cs + c + b] += v[(blocks[i].position + a) * at + blocks[j].position + b];
    }
  }
  if (kind == 1) {
    auto* d = static_cast<BlockRandomAccessDiagonalMatrix*>(m.get());
    if (op == 1) d->Invert();
    if (op == 2) d->RightMultiplyAndAccumulate(x, y);
  }
  if (kind == 2) {
    auto* d = static_cast<BlockRandomAccessSparseMatrix*>(m.get());
    if (op == 2) d->SymmetricRightMultiplyAndAccumulate(x, y);
  }
  if (op == 3) m->SetZero();
  present[n * n] = m->num_rows();
  present[n * n + 1] = m->num_cols();
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      int r, c, rs, cs;
      CellInfo* cell = m->GetCell(i, j, &r, &c, &rs, &cs);
      present[i * n + j] = cell != nullptr;
      if (cell == nullptr) continue;
      for (int a = 0; a < sizes[i]; ++a)
        for (int b = 0; b < sizes[j]; ++b) out[(blocks[i].position + a) * at + blocks[j].position + b] = cell->values[(r + a) * cs + c + b];
    }
  }
}

// structure detection
void Detect(const int* s, int eliminate, int* out) {
  std::vector<double> v(200, 0.0);
  auto A = BlockSparse(s, v.data());
  DetectStructure(*A->block_structure(), eliminate, out, out + 1, out + 2);
}

// which specialisation is chosen for given sizes
void Choose(int what, int row, int e, int f, int* out) {
  LinearSolver::Options options;
  options.row_block_size = row;
  options.e_block_size = e;
  options.f_block_size = f;
  if (what == 0) {
    SchurEliminatorBase::Create(options);
  } else if (what == 1) {
    out[0] = row;
    out[1] = e;
    out[2] = f;
    GetBestSchurTemplateSpecialization(out, out + 1, out + 2);
  } else {
    const int one[] = {1, 1, 1, 1, 1, 0, 0, 0};
    const double v[] = {0.0};
    auto A = BlockSparse(one, v);
    PartitionedMatrixViewBase::Create(options, *A);
  }
}

// the whole solver; the factorisation is left open
template <typename S>
void Solve(LinearSolverType type, const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, double* x, double* x2) {
  auto A = BlockSparse(s, v2 != nullptr ? v2 : v);
  ContextImpl context;
  LinearSolver::Options options;
  options.type = type;
  options.context = &context;
  options.num_threads = 1;
  options.preconditioner_type = SCHUR_JACOBI;
  options.use_explicit_schur_complement = true;
  options.elimination_groups.push_back(eliminate);
  options.elimination_groups.push_back(A->block_structure()->cols.size() - eliminate);
  LinearSolver::PerSolveOptions per_solve;
  per_solve.D = const_cast<double*>(D);
  options.min_num_iterations = 3;
  options.max_num_iterations = 17;
  options.residual_reset_period = 7;
  per_solve.q_tolerance = 0.25;
  per_solve.r_tolerance = 0.125;
  S solver(options);
  if (v2 != nullptr) {
    solver.Solve(A.get(), b2, per_solve, x2);
    Put(A.get(), v);
  }
  solver.Solve(A.get(), b, per_solve, x);
}
void SolveDense(const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, double* x, double* x2) {
  Solve<DenseSchurComplementSolver>(DENSE_SCHUR, s, eliminate, v, v2, b, b2, D, x, x2);
}
void SolveSparse(int iterative, const int* s, int eliminate, const double* v, const double* v2, const double* b, const double* b2, const double* D, double* x, double* x2) {
  Solve<SparseSchurComplementSolver>(iterative ? ITERATIVE_SCHUR : SPARSE_SCHUR, s, eliminate, v, v2, b, b2, D, x, x2);
}
}  // namespace w
