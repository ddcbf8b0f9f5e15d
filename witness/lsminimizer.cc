// Never compiled to code: the line search minimizer over an uninterpreted problem, direction, line search and callback.
#include "ceres/evaluator.h"
#include "ceres/line_search.h"
#include "ceres/line_search_direction.h"
#include "ceres/line_search_minimizer.h"
#include "ceres/sparse_matrix.h"
namespace w {
using namespace ceres::internal;
using ceres::Vector;
double Cost(double x0, double x1);
double Grad(int i, double x0, double x1);
double EvalOk(double x0, double x1);
double Plus(int i, double x0, double x1, double d0, double d1);
double PlusOk(double x0, double x1, double d0, double d1);
double Dir(int i, int created, int call, double c0, double g00, double g01, double n0, double d0, double d1, double t0, double c1, double g10, double g11, double n1);
double DirOk(int created, int call);
double Length(int call, double step, double cost, double slope, double x0, double x1, double d0, double d1);
double Mode(int call);
double Back(int iteration);
// Remembers the point it was last told about, as an evaluation callback of the user does.
struct TEval : Evaluator {
  double at[2] = {12345, 54321};
  bool Evaluate(const EvaluateOptions& o, const double* x, double* cost, double* residuals, double* gradient, SparseMatrix* jacobian) override {
    if (o.new_evaluation_point) {
      at[0] = x[0];
      at[1] = x[1];
    }
    if (!o.apply_loss_function || residuals != nullptr || jacobian != nullptr) return false;
    if (EvalOk(at[0], at[1]) <= 0) return false;
    *cost = Cost(at[0], at[1]);
    for (int i = 0; i < 2; ++i) {
      if (gradient != nullptr) gradient[i] = Grad(i, at[0], at[1]);
    }
    return true;
  }
  bool Plus(const double* x, const double* d, double* y) const override {
    if (PlusOk(x[0], x[1], d[0], d[1]) <= 0) return false;
    const double y0 = w::Plus(0, x[0], x[1], d[0], d[1]), y1 = w::Plus(1, x[0], x[1], d[0], d[1]);
    y[0] = y0;
    y[1] = y1;
    return true;
  }
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  int NumParameters() const override { return 2; }
  int NumEffectiveParameters() const override { return 2; }
  int NumResiduals() const override { return 2; }
};
struct Log {
  double* z;
  int created = 0;
  int calls = 0;
  int searches = 0;
};
struct TDirection : LineSearchDirection {
  Log* log;
  int created;
  explicit TDirection(Log* l) : log(l), created(0) {}
  bool NextDirection(const LineSearchMinimizer::State& p, const LineSearchMinimizer::State& c, Vector* d) override {
    ++log->calls;
    for (int i = 0; i < 2; ++i) {
      (*d)(i) = Dir(i, created, log->calls, p.cost, p.gradient(0), p.gradient(1), p.gradient_squared_norm, p.search_direction(0), p.search_direction(1), p.step_size, c.cost, c.gradient(0), c.gradient(1), c.gradient_squared_norm);
    }
    return DirOk(created, log->calls) > 0;
  }
};
// A line search that takes some step: 0 fails, 1 with gradient, 2 without gradient, 3 returns to where it started.
struct TSearch : LineSearch {
  Log* log;
  TSearch(const LineSearch::Options& o, Log* l) : LineSearch(o), log(l) {}
  void DoSearch(double step, double cost, double slope, Summary* s) const override {
    LineSearchFunction* f = options().function;
    ++log->searches;
    const double length = Length(log->searches, step, cost, slope, f->position()(0), f->position()(1), f->direction()(0), f->direction()(1));
    const double mode = Mode(log->searches);
    s->num_iterations = 3 * log->searches;
    s->num_function_evaluations = 5 * log->searches;
    s->num_gradient_evaluations = 7 * log->searches;
    s->success = mode != 0;
    if (mode == 3) {
      FunctionSample other;
      f->Evaluate(length, true, &other);
      s->optimal_point = FunctionSample(0, cost, slope);
      s->optimal_point.vector_x = f->position();
      s->optimal_point.vector_x_is_valid = true;
    } else {
      f->Evaluate(length, mode == 1, &s->optimal_point);
      if (!s->optimal_point.value_is_valid) s->success = false;
    }
  }
};
std::unique_ptr<LineSearchDirection> MakeDirection(const LineSearchDirection::Options& o, Log* l) {
  double* z = l->z;
  z[0] = o.num_parameters;
  z[1] = o.type;
  z[2] = o.nonlinear_conjugate_gradient_type;
  z[3] = o.max_lbfgs_rank;
  z[4] = o.use_approximate_eigenvalue_bfgs_scaling ? 1 : 0;
  TDirection* d = new TDirection(l);
  d->created = ++l->created;
  return std::unique_ptr<LineSearchDirection>(d);
}
std::unique_ptr<LineSearch> MakeSearch(ceres::LineSearchType type, const LineSearch::Options& o, Log* l) {
  double* z = l->z + 5;
  z[0] = type;
  z[1] = o.interpolation_type;
  z[2] = o.sufficient_decrease;
  z[3] = o.max_step_contraction;
  z[4] = o.min_step_contraction;
  z[5] = o.min_step_size;
  z[6] = o.max_num_iterations;
  z[7] = o.sufficient_curvature_decrease;
  z[8] = o.max_step_expansion;
  return std::unique_ptr<LineSearch>(new TSearch(o, l));
}
struct TCallback : ceres::IterationCallback {
  double* log;
  const double* x;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& t) override {
    double* z = log + 4 * t.iteration;
    z[0] = z[0] + 1;
    z[1] = t.cost;
    z[2] = x[0];
    z[3] = x[1];
    const double b = Back(t.iteration);
    return b == 0 ? ceres::SOLVER_CONTINUE : b == 1 ? ceres::SOLVER_TERMINATE_SUCCESSFULLY : ceres::SOLVER_ABORT;
  }
};
// opt: gradient, parameter and function tolerances, max time, preprocessor time, fixed cost; then the options of the line search
void Minimize(const double* opt, int iterations, int restarts, int type, int nlcg, int rank, int scaling, int search, int interpolation, int search_iterations, double* x, double* log, double* out, Log* l, ceres::Solver::Summary* sum) {
  Minimizer::Options o;
  TEval e;
  TCallback c;
  c.log = log;
  c.x = x;
  o.gradient_tolerance = opt[0];
  o.parameter_tolerance = opt[1];
  o.function_tolerance = opt[2];
  o.max_solver_time_in_seconds = opt[3];
  o.line_search_sufficient_function_decrease = opt[6];
  o.max_line_search_step_contraction = opt[7];
  o.min_line_search_step_contraction = opt[8];
  o.min_line_search_step_size = opt[9];
  o.line_search_sufficient_curvature_decrease = opt[10];
  o.max_line_search_step_expansion = opt[11];
  o.max_num_iterations = iterations;
  o.max_num_line_search_direction_restarts = restarts;
  o.max_num_line_search_step_size_iterations = search_iterations;
  o.line_search_direction_type = static_cast<ceres::LineSearchDirectionType>(type);
  o.nonlinear_conjugate_gradient_type = static_cast<ceres::NonlinearConjugateGradientType>(nlcg);
  o.max_lbfgs_rank = rank;
  o.use_approximate_eigenvalue_bfgs_scaling = scaling != 0;
  o.line_search_type = search == 0 ? ceres::ARMIJO : ceres::WOLFE;
  o.line_search_interpolation_type = static_cast<ceres::LineSearchInterpolationType>(interpolation);
  o.is_silent = true;
  o.evaluator.reset(&e);
  o.callbacks.push_back(&c);
  sum->preprocessor_time_in_seconds = opt[4];
  sum->fixed_cost = opt[5];
  sum->num_line_search_steps = 0;
  LineSearchMinimizer m;
  m.Minimize(o, x, sum);
  out[0] = sum->termination_type;
  out[1] = sum->num_successful_steps;
  out[2] = sum->num_unsuccessful_steps;
  out[3] = sum->initial_cost;
  out[4] = sum->num_line_search_steps;
  out[5] = l->created;
  out[6] = l->calls;
  out[7] = l->searches;
}
void Start(const double* opt, int iterations, int restarts, int type, int nlcg, int rank, int scaling, int search, int interpolation, int search_iterations, double* x, double* log, double* out, double* made) {
  Log l;
  l.z = made;
  ceres::Solver::Summary sum;
  Minimize(opt, iterations, restarts, type, nlcg, rank, scaling, search, interpolation, search_iterations, x, log, out, &l, &sum);
}
}  // namespace w
