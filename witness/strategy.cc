// Never compiled to code: trust region step evaluation and strategies.
#include "ceres/dogleg_strategy.h"
#include "ceres/levenberg_marquardt_strategy.h"
#include "ceres/linear_solver.h"
#include "ceres/sparse_matrix.h"
#include "ceres/trust_region_step_evaluator.h"
namespace w {
using namespace ceres::internal;
double Sol(int i, int call, double d0, double d1);
double Term(int call, double d0, double d1);
double Fill(int i, int call);
struct Mat : SparseMatrix {
  const double* v;  // 3 x 2, row-major
  explicit Mat(const double* p) : v(p) {}
  void RightMultiplyAndAccumulate(const double* x, double* y) const override {
    for (int i = 0; i < 3; ++i) y[i] += v[2 * i] * x[0] + v[2 * i + 1] * x[1];
  }
  void LeftMultiplyAndAccumulate(const double* x, double* y) const override {
    for (int i = 0; i < 3; ++i) {
      y[0] += v[2 * i] * x[i];
      y[1] += v[2 * i + 1] * x[i];
    }
  }
  void SquaredColumnNorm(double* x) const override {
    for (int c = 0; c < 2; ++c) x[c] = v[c] * v[c] + v[2 + c] * v[2 + c] + v[4 + c] * v[4 + c];
  }
  void SquaredColumnNorm(double* x, ContextImpl*, int) const override { SquaredColumnNorm(x); }
  void ScaleColumns(const double*) override {}
  void SetZero() override {}
  void ToDenseMatrix(ceres::Matrix*) const override {}
  void ToTextFile(FILE*) const override {}
  double* mutable_values() override { return nullptr; }
  const double* values() const override { return nullptr; }
  int num_rows() const override { return 3; }
  int num_cols() const override { return 2; }
  int num_nonzeros() const override { return 6; }
};
struct Lin : LinearSolver {
  int calls = 0;
  double d0 = 0, d1 = 0;
  bool same = true;
  LinearOperator* a = nullptr;
  const double* r = nullptr;
  Summary Solve(LinearOperator* A, const double* b, const PerSolveOptions& o, double* x) override {
    ++calls;
    d0 = o.D[0];
    d1 = o.D[1];
    same = same && A == a && b == r;
    if (Fill(0, calls) > 0) x[0] = Sol(0, calls, d0, d1);
    if (Fill(1, calls) > 0) x[1] = Sol(1, calls, d0, d1);
    Summary s;
    s.residual_norm = 7;
    s.num_iterations = 3;
    s.termination_type = Term(calls, d0, d1) == 0   ? LinearSolverTerminationType::SUCCESS
                         : Term(calls, d0, d1) == 1 ? LinearSolverTerminationType::NO_CONVERGENCE
                         : Term(calls, d0, d1) == 2 ? LinearSolverTerminationType::FAILURE
                                                    : LinearSolverTerminationType::FATAL_ERROR;
    return s;
  }
};
// ops: 0 compute a step, 1 accept, 2 reject, 3 invalid, 4 switch to the other Jacobian.
template <typename S>
void Drive(TrustRegionStrategy::Options& o, const double* jac, const double* other, const double* res, const int* ops, int nops, const double* q, double* out) {
  Lin lin;
  o.linear_solver = &lin;
  Mat m0(jac), m1(other);
  Mat* m = &m0;
  lin.r = res;
  S s(o);
  for (int k = 0; k < nops; ++k) {
    double* z = out + 8 * k;
    if (ops[k] == 0) {
      TrustRegionStrategy::PerSolveOptions p;
      lin.a = m;
      TrustRegionStrategy::Summary t = s.ComputeStep(p, m, res, z);
      z[2] = t.termination_type == LinearSolverTerminationType::SUCCESS          ? 0
             : t.termination_type == LinearSolverTerminationType::NO_CONVERGENCE ? 1
             : t.termination_type == LinearSolverTerminationType::FAILURE        ? 2
                                                                                 : 3;
    }
    if (ops[k] == 1) s.StepAccepted(q[k]);
    if (ops[k] == 2) s.StepRejected(q[k]);
    if (ops[k] == 3) s.StepIsInvalid();
    if (ops[k] == 4) m = &m1;
    z[3] = s.Radius();
    z[4] = lin.d0;
    z[5] = lin.d1;
    z[6] = lin.calls;
    z[7] = lin.same ? 1 : 0;
  }
}
void Strategy(int kind, const double* opt, const double* jac, const double* other, const double* res, const int* ops, int nops, const double* q, double* out) {
  TrustRegionStrategy::Options o;
  o.initial_radius = opt[0];
  o.max_radius = opt[1];
  o.min_lm_diagonal = opt[2];
  o.max_lm_diagonal = opt[3];
  if (kind == 0) {
    Drive<LevenbergMarquardtStrategy>(o, jac, other, res, ops, nops, q, out);
  } else {
    o.dogleg_type = kind == 1 ? ceres::TRADITIONAL_DOGLEG : ceres::SUBSPACE_DOGLEG;
    Drive<DoglegStrategy>(o, jac, other, res, ops, nops, q, out);
  }
}
void Quality(double initial, int max, const double* cost, const double* model, const int* accept, int n, double* out) {
  TrustRegionStepEvaluator e(initial, max);
  for (int i = 0; i < n; ++i) {
    out[i] = e.StepQuality(cost[i], model[i]);
    if (accept[i] != 0) e.StepAccepted(cost[i], model[i]);
  }
}
}  // namespace w
