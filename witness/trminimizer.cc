// Never compiled to code: the trust region minimizer over an uninterpreted problem, strategy and callback.
#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/evaluator.h"
#include "ceres/minimizer.h"
#include "ceres/sparse_matrix.h"
#include "ceres/trust_region_minimizer.h"
#include "ceres/trust_region_strategy.h"
namespace w {
using namespace ceres::internal;
double Cost(double x0, double x1);
double Res(int i, double x0, double x1);
double Grad(int i, double x0, double x1);
double Jac(int i, int j, double x0, double x1);
double EvalOk(double x0, double x1);
double JacOk(double x0, double x1);
double Plus(int i, double x0, double x1, double d0, double d1);
double PlusOk(double x0, double x1, double d0, double d1);
double Step(int i, int call, double j00, double j01, double j10, double j11, double r0, double r1);
double Term(int call);
double Back(int iteration);
double Inner(int i, double x0, double x1);
struct TMat : SparseMatrix {
  double v[4];
  void RightMultiplyAndAccumulate(const double* x, double* y) const override {
    for (int i = 0; i < 2; ++i) y[i] += v[2 * i] * x[0] + v[2 * i + 1] * x[1];
  }
  void RightMultiplyAndAccumulate(const double* x, double* y, ContextImpl*, int) const override { RightMultiplyAndAccumulate(x, y); }
  void LeftMultiplyAndAccumulate(const double* x, double* y) const override {
    for (int j = 0; j < 2; ++j) y[j] += v[j] * x[0] + v[2 + j] * x[1];
  }
  void SquaredColumnNorm(double* x) const override {
    for (int c = 0; c < 2; ++c) x[c] = v[c] * v[c] + v[2 + c] * v[2 + c];
  }
  void SquaredColumnNorm(double* x, ContextImpl*, int) const override { SquaredColumnNorm(x); }
  void ScaleColumns(const double* s) override {
    for (int i = 0; i < 4; ++i) v[i] *= s[i % 2];
  }
  void ScaleColumns(const double* s, ContextImpl*, int) override { ScaleColumns(s); }
  void SetZero() override {}
  void ToDenseMatrix(ceres::Matrix*) const override {}
  void ToTextFile(FILE*) const override {}
  double* mutable_values() override { return v; }
  const double* values() const override { return v; }
  int num_rows() const override { return 2; }
  int num_cols() const override { return 2; }
  int num_nonzeros() const override { return 4; }
};
// Remembers the point it was last told about, as an evaluation callback of the user does.
struct TEval : Evaluator {
  double at[2] = {12345, 54321};
  bool remember = true;
  bool Evaluate(const EvaluateOptions& o, const double* x, double* cost, double* residuals, double* gradient, SparseMatrix* jacobian) override {
    if (o.new_evaluation_point || !remember) {
      at[0] = x[0];
      at[1] = x[1];
    }
    if (!o.apply_loss_function) return false;
    if (EvalOk(at[0], at[1]) <= 0) return false;
    *cost = Cost(at[0], at[1]);
    for (int i = 0; i < 2; ++i) {
      if (residuals != nullptr) residuals[i] = Res(i, at[0], at[1]);
      if (gradient != nullptr) gradient[i] = Grad(i, at[0], at[1]);
    }
    if (jacobian != nullptr) {
      if (JacOk(at[0], at[1]) <= 0) return false;
      for (int i = 0; i < 4; ++i) static_cast<TMat*>(jacobian)->v[i] = Jac(i / 2, i % 2, at[0], at[1]);
    }
    return true;
  }
  bool Plus(const double* x, const double* d, double* y) const override {
    if (PlusOk(x[0], x[1], d[0], d[1]) <= 0) return false;
    const double y0 = w::Plus(0, x[0], x[1], d[0], d[1]), y1 = w::Plus(1, x[0], x[1], d[0], d[1]);
    y[0] = y0;
    y[1] = y1;
    return true;
  }
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  int NumParameters() const override { return 2; }
  int NumEffectiveParameters() const override { return 2; }
  int NumResiduals() const override { return 2; }
};
struct TStrategy : TrustRegionStrategy {
  double radius;
  int calls = 0, accepted = 0, rejected = 0, invalid = 0;
  double quality = 0;
  Summary ComputeStep(const PerSolveOptions&, SparseMatrix* jacobian, const double* r, double* step) override {
    const double* v = static_cast<TMat*>(jacobian)->v;
    ++calls;
    Summary s;
    s.num_iterations = calls;
    s.termination_type = Term(calls) == 0   ? LinearSolverTerminationType::SUCCESS
                         : Term(calls) == 1 ? LinearSolverTerminationType::NO_CONVERGENCE
                         : Term(calls) == 2 ? LinearSolverTerminationType::FAILURE
                                            : LinearSolverTerminationType::FATAL_ERROR;
    step[0] = Step(0, calls, v[0], v[1], v[2], v[3], r[0], r[1]);
    step[1] = Step(1, calls, v[0], v[1], v[2], v[3], r[0], r[1]);
    return s;
  }
  void StepAccepted(double q) override {
    ++accepted;
    quality = q;
    radius = radius * 3;
  }
  void StepRejected(double q) override {
    ++rejected;
    quality = q;
    radius = radius / 2;
  }
  void StepIsInvalid() override {
    ++invalid;
    radius = radius / 5;
  }
  double Radius() const override { return radius; }
};
struct TCallback : ceres::IterationCallback {
  double* log;
  const double* x;
  const TStrategy* s;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& t) override {
    double* z = log + 20 * t.iteration;
    z[0] = t.cost;
    z[1] = t.cost_change;
    z[2] = t.gradient_max_norm;
    z[3] = t.gradient_norm;
    z[4] = t.step_norm;
    z[5] = t.relative_decrease;
    z[6] = t.trust_region_radius;
    z[7] = t.step_is_valid ? 1 : 0;
    z[8] = t.step_is_successful ? 1 : 0;
    z[9] = t.step_is_nonmonotonic ? 1 : 0;
    z[10] = t.linear_solver_iterations;
    z[11] = x[0];
    z[12] = x[1];
    z[13] = s->accepted;
    z[14] = s->rejected;
    z[15] = s->invalid;
    z[16] = s->quality;
    z[17] = 1;
    z[18] = t.eta;
    const double b = Back(t.iteration);
    return b == 0 ? ceres::SOLVER_CONTINUE : b == 1 ? ceres::SOLVER_TERMINATE_SUCCESSFULLY : ceres::SOLVER_ABORT;
  }
};
// opt: gradient, parameter and function tolerances, min relative decrease, min radius, initial radius, max time, preprocessor time, fixed cost, inner tolerance, eta
void Minimize(const double* opt, int iterations, int max_invalid, int scaling, int nonmonotonic, int constrained, int search, int inner, double* x, double* log, double* out) {
  Minimizer::Options o;
  TEval e;
  TMat m;
  TStrategy s;
  TCallback c;
  s.radius = opt[5];
  c.log = log;
  c.x = x;
  c.s = &s;
  o.gradient_tolerance = opt[0];
  o.parameter_tolerance = opt[1];
  o.function_tolerance = opt[2];
  o.min_relative_decrease = opt[3];
  o.min_trust_region_radius = opt[4];
  o.max_solver_time_in_seconds = opt[6];
  o.inner_iteration_tolerance = opt[9];
  o.eta = opt[10];
  o.max_num_iterations = iterations;
  o.max_num_consecutive_invalid_steps = max_invalid;
  o.jacobi_scaling = scaling != 0;
  o.use_nonmonotonic_steps = nonmonotonic != 0;
  o.max_consecutive_nonmonotonic_steps = nonmonotonic;
  o.is_constrained = constrained != 0;
  o.max_num_line_search_step_size_iterations = search;
  o.is_silent = true;
  e.remember = inner == 0;
  o.evaluator.reset(&e);
  o.jacobian.reset(&m);
  o.trust_region_strategy.reset(&s);
  o.callbacks.push_back(&c);
  if (inner != 0) o.inner_iteration_minimizer = std::make_shared<CoordinateDescentMinimizer>(nullptr);
  ceres::Solver::Summary sum;
  sum.preprocessor_time_in_seconds = opt[7];
  sum.fixed_cost = opt[8];
  TrustRegionMinimizer t;
  t.Minimize(o, x, &sum);
  out[0] = sum.termination_type;
  out[1] = sum.num_successful_steps;
  out[2] = sum.num_unsuccessful_steps;
  out[3] = sum.initial_cost;
  out[4] = s.calls;
  out[5] = s.accepted;
  out[6] = s.rejected;
  out[7] = s.invalid;
  out[8] = sum.num_inner_iteration_steps;
}
}  // namespace w
