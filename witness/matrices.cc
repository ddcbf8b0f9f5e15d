// Sparse matrix formats: builds a matrix from a description in integers, applies one operation and writes the result out.
#include <memory>
#include <vector>
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/sparse_matrix.h"
#include "ceres/triplet_sparse_matrix.h"

namespace w {
using namespace ceres;
using namespace ceres::internal;

// s = rows, cols, entries, capacity, then row and col of each entry
std::unique_ptr<TripletSparseMatrix> Triplet(const int* s, const double* v) {
  auto m = std::make_unique<TripletSparseMatrix>(s[0], s[1], s[3]);
  for (int i = 0; i < s[2]; ++i) {
    m->mutable_rows()[i] = s[4 + 2 * i];
    m->mutable_cols()[i] = s[5 + 2 * i];
    m->mutable_values()[i] = v[i];
  }
  m->set_num_nonzeros(s[2]);
  return m;
}
// s = row blocks, col blocks, cells, row sizes, col sizes, then row block, col block and position of each cell
std::unique_ptr<BlockSparseMatrix> BlockSparse(const int* s, const double* v) {
  auto* bs = new CompressedRowBlockStructure;
  const int nr = s[0], nc = s[1], cells = s[2];
  s += 3;
  int at = 0;
  bs->rows.resize(nr);
  for (int i = 0; i < nr; ++i) {
    bs->rows[i].block.size = s[i];
    bs->rows[i].block.position = at;
    at += s[i];
  }
  s += nr;
  at = 0;
  bs->cols.resize(nc);
  for (int i = 0; i < nc; ++i) {
    bs->cols[i].size = s[i];
    bs->cols[i].position = at;
    at += s[i];
  }
  s += nc;
  for (int i = 0; i < cells; ++i, s += 3) bs->rows[s[0]].cells.push_back(Cell(s[1], s[2]));
  auto m = std::make_unique<BlockSparseMatrix>(bs);
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v[i];
  return m;
}
std::vector<Block> Blocks(const int* s, int n) {
  std::vector<Block> b;
  int at = 0;
  for (int i = 0; i < n; ++i) {
    b.push_back(Block(s[i], at));
    at += s[i];
  }
  return b;
}
// s = rows, cols, entries, row starts, cols; storage type; row blocks, col blocks
std::unique_ptr<CompressedRowSparseMatrix> CompressedRow_(const int* s, const double* v, int type, int extra, const int* rb, int nrb, const int* cb, int ncb) {
  auto m = std::make_unique<CompressedRowSparseMatrix>(s[0], s[1], s[2] + extra);
  for (int i = 0; i <= s[0]; ++i) m->mutable_rows()[i] = s[3 + i];
  for (int i = 0; i < s[2]; ++i) {
    m->mutable_cols()[i] = s[4 + s[0] + i];
    m->mutable_values()[i] = v[i];
  }
  m->set_storage_type(type == 0   ? CompressedRowSparseMatrix::StorageType::UNSYMMETRIC
                      : type == 1 ? CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR
                                  : CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR);
  *m->mutable_row_blocks() = Blocks(rb, nrb);
  *m->mutable_col_blocks() = Blocks(cb, ncb);
  return m;
}
std::unique_ptr<DenseSparseMatrix> Dense(int rows, int cols, const double* v) {
  auto m = std::make_unique<DenseSparseMatrix>(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) (*m->mutable_matrix())(i, j) = v[i * cols + j];
  return m;
}
void Show(const SparseMatrix& m, int* size, double* out) {
  Matrix d;
  m.ToDenseMatrix(&d);
  size[0] = m.num_rows();
  size[1] = m.num_cols();
  size[2] = m.num_nonzeros();
  size[3] = d.rows();
  size[4] = d.cols();
  for (int i = 0; i < d.rows(); ++i)
    for (int j = 0; j < d.cols(); ++j) out[i * d.cols() + j] = d(i, j);
}
void Apply(SparseMatrix& m, int op, int threads, const double* in, double* io, int* size, double* out) {
  ContextImpl context;
  if (op == 0) {
    if (threads) m.RightMultiplyAndAccumulate(in, io, &context, threads); else m.RightMultiplyAndAccumulate(in, io);
  } else if (op == 1) {
    const LinearOperator& l = m;
    if (threads) l.LeftMultiplyAndAccumulate(in, io, &context, threads); else m.LeftMultiplyAndAccumulate(in, io);
  } else if (op == 2) {
    if (threads) m.SquaredColumnNorm(io, &context, threads); else m.SquaredColumnNorm(io);
  } else if (op == 3) {
    if (threads) m.ScaleColumns(in, &context, threads); else m.ScaleColumns(in);
  } else if (op == 4) {
    if (threads) m.SetZero(&context, threads); else m.SetZero();
  }
  Show(m, size, out);
}
void Crs(const CRSMatrix& c, int* size, int* rows, int* cols, double* values) {
  size[0] = c.num_rows;
  size[1] = c.num_cols;
  size[2] = c.rows.size();
  size[3] = c.cols.size();
  size[4] = c.values.size();
  for (int i = 0; i < c.rows.size(); ++i) rows[i] = c.rows[i];
  for (int i = 0; i < c.cols.size(); ++i) cols[i] = c.cols[i];
  for (int i = 0; i < c.values.size(); ++i) values[i] = c.values[i];
}
void ShowBlocks(const std::vector<Block>& b, int* out) {
  out[0] = b.size();
  for (int i = 0; i < b.size(); ++i) {
    out[1 + 2 * i] = b[i].size;
    out[2 + 2 * i] = b[i].position;
  }
}
void ShowRaw(const CompressedRowSparseMatrix& m, int* size, int* rows, int* cols, double* values, int* rb, int* cb) {
  CRSMatrix c;
  m.ToCRSMatrix(&c);
  Crs(c, size, rows, cols, values);
  size[5] = int(m.storage_type());
  ShowBlocks(m.row_blocks(), rb);
  ShowBlocks(m.col_blocks(), cb);
}

// one matrix kind each: linear operations
void TripletOp(const int* s, const double* v, int op, int threads, const double* in, double* io, int* size, double* out) { Apply(*Triplet(s, v), op, threads, in, io, size, out); }
void BlockOp(const int* s, const double* v, int op, int threads, const double* in, double* io, int* size, double* out) { Apply(*BlockSparse(s, v), op, threads, in, io, size, out); }
void CrsOp(const int* s, const double* v, int type, int op, int threads, const double* in, double* io, int* size, double* out) { Apply(*CompressedRow_(s, v, type, 2, s, 0, s, 0), op, threads, in, io, size, out); }
void DenseOp(int rows, int cols, const double* v, int op, int threads, const double* in, double* io, int* size, double* out) { Apply(*Dense(rows, cols, v), op, threads, in, io, size, out); }

// triplets: structure changing operations, then `op` on the result
void TripletChange(const int* s, const double* v, int what, const int* s2, const double* v2, int a, int b, int op, const double* in, double* io, int* size, double* out) {
  auto m = Triplet(s, v);
  if (what == 0) m->Resize(a, b);
  if (what == 1) m->AppendRows(*Triplet(s2, v2));
  if (what == 2) m->AppendCols(*Triplet(s2, v2));
  if (what == 3) m->Reserve(a);
  if (what == 4) *m = *Triplet(s2, v2);
  if (what == 5) m = std::make_unique<TripletSparseMatrix>(*m);
  if (what == 6) m = TripletSparseMatrix::CreateSparseDiagonalMatrix(v, a);
  if (what == 7) {
    DenseSparseMatrix d(*m);
    Apply(d, op, 0, in, io, size, out);
    return;
  }
  if (what == 8) {
    std::vector<int> rows, cols;
    std::vector<double> values;
    for (int i = 0; i < s[2]; ++i) {
      rows.push_back(s[4 + 2 * i]);
      cols.push_back(s[5 + 2 * i]);
      values.push_back(v[i]);
    }
    m = std::make_unique<TripletSparseMatrix>(s[0], s[1], rows, cols, values);
  }
  if (what == 9) {
    m->SetZero();
    m->AppendRows(*Triplet(s2, v2));
  }
  size[5] = m->IsValid();
  Apply(*m, op, 0, in, io, size, out);
}
void TripletToCrs(const int* s, const double* v, int* size, int* rows, int* cols, double* values) {
  CRSMatrix c;
  Triplet(s, v)->ToCRSMatrix(&c);
  Crs(c, size, rows, cols, values);
}
void CrsFromTriplet(const int* s, const double* v, int transposed, int* size, int* rows, int* cols, double* values, int* rb, int* cb) {
  auto t = Triplet(s, v);
  ShowRaw(transposed ? *CompressedRowSparseMatrix::FromTripletSparseMatrixTransposed(*t) : *CompressedRowSparseMatrix::FromTripletSparseMatrix(*t), size, rows, cols, values, rb, cb);
}
void CrsChange(const int* s, const double* v, int type, const int* rblk, int nrb, const int* cblk, int ncb, int what, int a, const int* s2, const double* v2, const int* rblk2, int nrb2, int* size, int* rows, int* cols, double* values, int* rb, int* cb) {
  auto m = CompressedRow_(s, v, type, 1, rblk, nrb, cblk, ncb);
  if (what == 1) m = m->Transpose();
  if (what == 2) m->DeleteRows(a);
  if (what == 3) m->AppendRows(*CompressedRow_(s2, v2, 0, 0, rblk2, nrb2, cblk, ncb));
  if (what == 4) {
    m->AppendRows(*CompressedRow_(s2, v2, 0, 0, rblk2, nrb2, cblk, ncb));
    m->DeleteRows(a);
  }
  if (what == 5) {
    m->DeleteRows(a);
    m->AppendRows(*CompressedRow_(s2, v2, 0, 0, rblk2, nrb2, cblk, ncb));
  }
  ShowRaw(*m, size, rows, cols, values, rb, cb);
}
void CrsDiagonal(const double* d, int n, int* size, int* rows, int* cols, double* values, int* rb, int* cb) { ShowRaw(CompressedRowSparseMatrix(d, n), size, rows, cols, values, rb, cb); }
void CrsBlockDiagonal(const double* d, const int* blocks, int n, int* size, int* rows, int* cols, double* values, int* rb, int* cb) {
  ShowRaw(*CompressedRowSparseMatrix::CreateBlockDiagonalMatrix(d, Blocks(blocks, n)), size, rows, cols, values, rb, cb);
}
std::unique_ptr<BlockSparseMatrix> BlockChanged(const int* s, const double* v, int what, const int* s2, const double* v2, int n) {
  if (what == 5) return BlockSparseMatrix::CreateDiagonalMatrix(v, Blocks(s, n));
  auto m = BlockSparse(s, v);
  if (what == 1) m->AppendRows(*BlockSparse(s2, v2));
  if (what == 2) m->DeleteRowBlocks(n);
  if (what == 3) {
    m->AppendRows(*BlockSparse(s2, v2));
    m->DeleteRowBlocks(n);
  }
  if (what == 4) {
    m->DeleteRowBlocks(n);
    m->AppendRows(*BlockSparse(s2, v2));
  }
  return m;
}
void BlockChange(const int* s, const double* v, int what, const int* s2, const double* v2, int n, int op, int threads, const double* in, double* io, int* size, double* out) {
  Apply(*BlockChanged(s, v, what, s2, v2, n), op, threads, in, io, size, out);
}
void BlockToCrs(const int* s, const double* v, int what, const int* s2, const double* v2, int n, int transposed, const double* v3, int* size, int* rows, int* cols, double* values, int* rb, int* cb) {
  auto m = BlockChanged(s, v, what, s2, v2, n);
  auto c = transposed ? m->ToCompressedRowSparseMatrixTranspose() : m->ToCompressedRowSparseMatrix();
  if (v3 != nullptr) {
    for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = v3[i];
    if (transposed) m->UpdateCompressedRowSparseMatrixTranspose(c.get()); else m->UpdateCompressedRowSparseMatrix(c.get());
  }
  ShowRaw(*c, size, rows, cols, values, rb, cb);
}
void BlockToTriplet(const int* s, const double* v, int what, const int* s2, const double* v2, int n, int op, const double* in, double* io, int* size, double* out) {
  TripletSparseMatrix t;
  BlockChanged(s, v, what, s2, v2, n)->ToTripletSparseMatrix(&t);
  size[5] = t.IsValid();
  Apply(t, op, 0, in, io, size, out);
}
void BlockHelpers(const int* s, int n, int tail, int* out, int* blocks) {
  auto b = Blocks(s, n);
  out[0] = NumScalarEntries(b);
  out[1] = SumSquaredSizes(b);
  ShowBlocks(Tail(b, tail), blocks);
}
}  // namespace w
