// Never compiled to code: instantiates the numeric differentiation wrappers.
#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
namespace w {
// Unknown functions of the parameters; the analysis treats them as uninterpreted.
double R0(double, double, double);
double R1(double, double, double);
double Ok(double, double, double);
struct Fn {
  bool operator()(const double* x, const double* y, double* r) const {
    r[0] = R0(x[0], x[1], y[0]);
    r[1] = R1(x[0], x[1], y[0]);
    return Ok(x[0], x[1], y[0]) > 0;
  }
};
struct Dyn {
  bool operator()(double const* const* p, double* r) const {
    r[0] = R0(p[0][0], p[0][1], p[1][0]);
    r[1] = R1(p[0][0], p[0][1], p[1][0]);
    return Ok(p[0][0], p[0][1], p[1][0]) > 0;
  }
};
struct Cost : ceres::SizedCostFunction<2, 2, 1> {
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    r[0] = R0(p[0][0], p[0][1], p[1][0]);
    r[1] = R1(p[0][0], p[0][1], p[1][0]);
    return Ok(p[0][0], p[0][1], p[1][0]) > 0;
  }
};
struct First {
  bool operator()(const double* p, double* c) const {
    c[0] = R0(p[0], p[1], p[2]);
    return Ok(p[0], p[1], p[2]) > 0;
  }
};
ceres::NumericDiffOptions Opts(double rel, double rrel, int n, double eps, double shrink) {
  ceres::NumericDiffOptions o;
  o.relative_step_size = rel;
  o.ridders_relative_initial_step_size = rrel;
  o.max_num_ridders_extrapolations = n;
  o.ridders_epsilon = eps;
  o.ridders_step_shrink_factor = shrink;
  return o;
}
#define W(M)                                                                                                              \
  bool Fixed##M(double const* const* p, double* r, double** j, double a, double b, int n, double e, double s) {          \
    ceres::NumericDiffCostFunction<Fn, ceres::M, 2, 2, 1> f(new Fn, ceres::TAKE_OWNERSHIP, 2, Opts(a, b, n, e, s));      \
    return f.Evaluate(p, r, j);                                                                                           \
  }                                                                                                                       \
  bool DynRes##M(double const* const* p, double* r, double** j, double a, double b, int n, double e, double s) {         \
    ceres::NumericDiffCostFunction<Fn, ceres::M, ceres::DYNAMIC, 2, 1> f(new Fn, ceres::TAKE_OWNERSHIP, 2, Opts(a, b, n, e, s)); \
    return f.Evaluate(p, r, j);                                                                                           \
  }                                                                                                                       \
  bool CostFn##M(double const* const* p, double* r, double** j, double a, double b, int n, double e, double s) {         \
    ceres::NumericDiffCostFunction<Cost, ceres::M, 2, 2, 1> f(new Cost, ceres::TAKE_OWNERSHIP, 2, Opts(a, b, n, e, s));  \
    return f.Evaluate(p, r, j);                                                                                           \
  }                                                                                                                       \
  bool Dynamic##M(double const* const* p, double* r, double** j, double a, double b, int n, double e, double s) {        \
    ceres::DynamicNumericDiffCostFunction<Dyn, ceres::M> f(new Dyn, ceres::TAKE_OWNERSHIP, Opts(a, b, n, e, s));          \
    f.AddParameterBlock(2);                                                                                               \
    f.AddParameterBlock(1);                                                                                               \
    f.SetNumResiduals(2);                                                                                                 \
    return f.Evaluate(p, r, j);                                                                                           \
  }                                                                                                                       \
  bool First##M(double const* p, double* r, double* j, double a, double b, int n, double e, double s) {                  \
    ceres::NumericDiffFirstOrderFunction<First, ceres::M, 3> f(std::make_unique<First>(), Opts(a, b, n, e, s));           \
    return f.Evaluate(p, r, j);                                                                                           \
  }                                                                                                                       \
  bool FirstDyn##M(double const* p, double* r, double* j, double a, double b, int n, double e, double s) {               \
    ceres::NumericDiffFirstOrderFunction<First, ceres::M> f(std::make_unique<First>(), 3, ceres::TAKE_OWNERSHIP, Opts(a, b, n, e, s)); \
    return f.Evaluate(p, r, j);                                                                                           \
  }
W(FORWARD)
W(CENTRAL)
W(RIDDERS)
}  // namespace w
