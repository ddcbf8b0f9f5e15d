// Never compiled to code: evaluators of every kind over programs of any shape.
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "ceres/block_jacobian_writer.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/compressed_row_jacobian_writer.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/cost_function.h"
#include "ceres/evaluation_callback.h"
#include "ceres/evaluator.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/parameter_block.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/residual_block.h"

namespace w {
using namespace ceres;
using namespace ceres::internal;
double A(int cost, int row, int block, int col), Ok(int cost), Rho(int loss, int k, double s), PJ(int block, int row, int col, double x), OkPJ(int block, double x), Pl(int block, int i, double x, double d);

struct Cost : CostFunction {
  int id;
  Cost(int i, int nres) : id(i) { set_num_residuals(nres); }
  void add(int size) { mutable_parameter_block_sizes()->push_back(size); }
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    for (int i = 0; i < num_residuals(); ++i) {
      double s = 0.0;
      for (int b = 0; b < static_cast<int>(parameter_block_sizes().size()); ++b) {
        const int n = parameter_block_sizes()[b];
        for (int k = 0; k < n; ++k) {
          const double a = A(id, i, b, k);
          s += a * (p[b][k] + p[b][k] * p[b][k] / 2);
          if (j != nullptr && j[b] != nullptr) j[b][i * n + k] = a * (1 + p[b][k]);
        }
      }
      r[i] = s;
    }
    return Ok(id) > 0;
  }
};
struct Loss : LossFunction {
  int id;
  explicit Loss(int i) : id(i) {}
  void Evaluate(double s, double* rho) const override {
    for (int k = 0; k < 3; ++k) rho[k] = Rho(id, k, s);
  }
};
struct Man : Manifold {
  int id, m, n;
  Man(int i, int ambient, int tangent) : id(i), m(ambient), n(tangent) {}
  int AmbientSize() const override { return m; }
  int TangentSize() const override { return n; }
  bool Plus(const double* x, const double* d, double* y) const override {
    for (int i = 0; i < m; ++i) y[i] = Pl(id, i, x[i], d[i % n]);
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return true; }
  bool MinusJacobian(const double*, double*) const override { return true; }
  bool PlusJacobian(const double* x, double* j) const override {
    for (int i = 0; i < m; ++i) {
      for (int k = 0; k < n; ++k) j[i * n + k] = PJ(id, i, k, x[i]);
    }
    return OkPJ(id, x[0]) > 0;
  }
};
// ints: blocks {size, tangent size (-1: no manifold), constant}, then the order of the varying blocks, then residual blocks {residuals, loss, blocks, ids...}
struct World {
  std::vector<ParameterBlock*> blocks;
  Program p;
  World(double* u, const int* s) {
    const int nb = *s++;
    for (int i = 0; i < nb; ++i) {
      ParameterBlock* b = new ParameterBlock(u, s[0], -1);
      u += s[0];
      if (s[1] >= 0) b->SetManifold(new Man(i, s[0], s[1]));
      if (s[2] != 0) b->SetConstant();
      blocks.push_back(b);
      s += 3;
    }
    const int nv = *s++;
    for (int i = 0; i < nv; ++i) p.mutable_parameter_blocks()->push_back(blocks[*s++]);
    const int nr = *s++;
    for (int i = 0; i < nr; ++i) {
      const int nres = s[0], loss = s[1], k = s[2];
      s += 3;
      Cost* c = new Cost(i, nres);
      std::vector<ParameterBlock*> bs;
      for (int j = 0; j < k; ++j) {
        ParameterBlock* b = blocks[*s++];
        c->add(b->Size());
        bs.push_back(b);
      }
      LossFunction* l = nullptr;
      if (loss != 0) l = new Loss(i);
      p.mutable_residual_blocks()->push_back(new ResidualBlock(c, l, bs, i));
    }
    p.SetParameterOffsetsAndIndex();
  }
};
struct Watch : EvaluationCallback {
  const double* u;
  int n;
  int* calls;
  double* seen;
  Watch(const double* user, int count, int* c, double* s) : u(user), n(count), calls(c), seen(s) {}
  void PrepareForEvaluation(bool jacobians, bool fresh) override {
    ++calls[0];
    calls[1] = jacobians ? 1 : 0;
    calls[2] = fresh ? 1 : 0;
    for (int i = 0; i < n; ++i) seen[i] = u[i];
  }
};
Evaluator::Options options(ContextImpl* context, int type, int dynamic, int lib, int ne, int threads) {
  Evaluator::Options o;
  o.context = context;
  o.num_threads = threads;
  o.num_eliminate_blocks = ne;
  o.linear_solver_type = static_cast<LinearSolverType>(type);
  o.dynamic_sparsity = dynamic != 0;
  o.sparse_linear_algebra_library_type = static_cast<SparseLinearAlgebraLibraryType>(lib);
  return o;
}
// Evaluates everything at x0 if first is set, then what the mask asks for (1 residuals, 2 gradient, 4 Jacobian) at x.
int Evaluate(double* u, int nu, const int* s, int type, int dynamic, int lib, int ne, int threads, int first, const double* x0, const double* x, int mask, bool apply, bool fresh, int watch,
             double* cost, double* res, double* grad, double* dense, int* calls, double* seen, int* sizes) {
  World world(u, s);
  ContextImpl context;
  if (threads > 1) context.EnsureMinimumThreads(threads);
  Evaluator::Options o = options(&context, type, dynamic, lib, ne, threads);
  Watch callback(u, nu, calls, seen);
  if (watch != 0) o.evaluation_callback = &callback;
  std::string error;
  std::unique_ptr<Evaluator> e = Evaluator::Create(o, &world.p, &error);
  std::unique_ptr<SparseMatrix> jac = e->CreateJacobian();
  sizes[0] = e->NumParameters();
  sizes[1] = e->NumEffectiveParameters();
  sizes[2] = e->NumResiduals();
  sizes[3] = jac->num_rows();
  sizes[4] = jac->num_cols();
  if (first != 0) {
    Evaluator::EvaluateOptions eo;
    Vector r(e->NumResiduals()), g(e->NumEffectiveParameters());
    double c = 0.0;
    if (!e->Evaluate(eo, x0, &c, r.data(), g.data(), jac.get())) return -1;
    calls[0] = 0;
  }
  Evaluator::EvaluateOptions eo;
  eo.apply_loss_function = apply;
  eo.new_evaluation_point = fresh;
  const bool ok = e->Evaluate(eo, x, cost, (mask & 1) != 0 ? res : nullptr, (mask & 2) != 0 ? grad : nullptr, (mask & 4) != 0 ? jac.get() : nullptr);
  if (ok && (mask & 4) != 0) {
    if (dynamic != 0 || type == CGNR) {  // entries that are there twice add up
      const CompressedRowSparseMatrix* m = static_cast<const CompressedRowSparseMatrix*>(jac.get());
      for (int i = 0; i < m->num_rows() * m->num_cols(); ++i) dense[i] = 0.0;
      for (int i = 0; i < m->num_rows(); ++i) {
        for (int k = m->rows()[i]; k < m->rows()[i + 1]; ++k) dense[i * m->num_cols() + m->cols()[k]] += m->values()[k];
      }
    } else {
      Matrix m;
      jac->ToDenseMatrix(&m);
      for (int i = 0; i < m.rows(); ++i) {
        for (int k = 0; k < m.cols(); ++k) dense[i * m.cols() + k] = m(i, k);
      }
    }
  }
  return ok ? 1 : 0;
}
bool Plus(double* u, const int* s, int threads, const double* x, const double* d, double* y) {
  World world(u, s);
  ContextImpl context;
  if (threads > 1) context.EnsureMinimumThreads(threads);
  Evaluator::Options o = options(&context, DENSE_QR, 0, 0, 0, threads);
  std::string error;
  std::unique_ptr<Evaluator> e = Evaluator::Create(o, &world.p, &error);
  return e->Plus(x, d, y);
}
// Structure of the Jacobian: for block sparse, col blocks, then rows with cells; for compressed row, rows, cols and blocks.
int Structure(double* u, const int* s, int type, int lib, int ne, int* out) {
  World world(u, s);
  ContextImpl context;
  Evaluator::Options o = options(&context, type, 0, lib, ne, 1);
  std::string error;
  std::unique_ptr<Evaluator> e = Evaluator::Create(o, &world.p, &error);
  std::unique_ptr<SparseMatrix> jac = e->CreateJacobian();
  if (jac == nullptr) return -1;
  int* at = out;
  *at++ = jac->num_rows();
  *at++ = jac->num_cols();
  if (lib != 0) {
    CompressedRowSparseMatrix* m = static_cast<CompressedRowSparseMatrix*>(jac.get());
    *at++ = static_cast<int>(m->col_blocks().size());
    for (size_t i = 0; i < m->col_blocks().size(); ++i) {
      *at++ = m->col_blocks()[i].size;
      *at++ = m->col_blocks()[i].position;
    }
    *at++ = static_cast<int>(m->row_blocks().size());
    for (size_t i = 0; i < m->row_blocks().size(); ++i) {
      *at++ = m->row_blocks()[i].size;
      *at++ = m->row_blocks()[i].position;
    }
    for (int i = 0; i <= m->num_rows(); ++i) *at++ = m->rows()[i];
    for (int i = 0; i < m->rows()[m->num_rows()]; ++i) *at++ = m->cols()[i];
    *at++ = m->num_nonzeros();
  } else {
    BlockSparseMatrix* m = static_cast<BlockSparseMatrix*>(jac.get());
    const CompressedRowBlockStructure* bs = m->block_structure();
    *at++ = static_cast<int>(bs->cols.size());
    for (size_t i = 0; i < bs->cols.size(); ++i) {
      *at++ = bs->cols[i].size;
      *at++ = bs->cols[i].position;
    }
    *at++ = static_cast<int>(bs->rows.size());
    for (size_t i = 0; i < bs->rows.size(); ++i) {
      *at++ = bs->rows[i].block.size;
      *at++ = bs->rows[i].block.position;
      *at++ = static_cast<int>(bs->rows[i].cells.size());
      for (size_t k = 0; k < bs->rows[i].cells.size(); ++k) {
        *at++ = bs->rows[i].cells[k].block_id;
        *at++ = bs->rows[i].cells[k].position;
      }
    }
    *at++ = m->num_nonzeros();
  }
  return static_cast<int>(at - out);
}
// Does the Jacobian of a program fit?  0: refused.
int Fits(double* u, const int* s, int kind, int ne) {
  World world(u, s);
  ContextImpl context;
  Evaluator::Options o = options(&context, kind != 0 ? CGNR : SPARSE_SCHUR, 0, 0, ne, 1);
  if (kind != 0) {
    CompressedRowJacobianWriter w(o, &world.p);
    std::unique_ptr<SparseMatrix> jac = w.CreateJacobian();
    return jac == nullptr ? 0 : 1;
  }
  BlockJacobianWriter w(o, &world.p);
  std::unique_ptr<SparseMatrix> jac = w.CreateJacobian();
  return jac == nullptr ? 0 : 1;
}
int Kind(double* u, const int* s, int type, int dynamic, int lib) {
  World world(u, s);
  ContextImpl context;
  Evaluator::Options o = options(&context, type, dynamic, lib, 0, 1);
  std::string error;
  std::unique_ptr<Evaluator> e = Evaluator::Create(o, &world.p, &error);
  if (e == nullptr) return error.empty() ? -2 : -1;
  std::unique_ptr<SparseMatrix> jac = e->CreateJacobian();
  return jac == nullptr ? 0 : 1;
}
}  // namespace w
