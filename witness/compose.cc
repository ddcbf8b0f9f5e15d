// Never compiled to code: cost functions built from other cost functions.
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/gradient_checker.h"
#include "ceres/jet.h"
#include "ceres/normal_prior.h"
#include "ceres/sized_cost_function.h"
namespace w {
// Unknown functions of the parameters; the analysis treats them as uninterpreted.
double R0(double, double, double);
double R1(double, double, double);
double J(int row, int col, double, double, double);
double Ok(double, double, double);
double C0(double), D0(double), Ok0(double);
double C1(double), D1(double), Ok1(double);
struct Cost : ceres::SizedCostFunction<2, 2, 1> {
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    r[0] = R0(p[0][0], p[0][1], p[1][0]);
    r[1] = R1(p[0][0], p[0][1], p[1][0]);
    if (j != nullptr) {
      for (int i = 0; i < 2; ++i) {
        if (j[0] != nullptr) {
          j[0][2 * i] = J(i, 0, p[0][0], p[0][1], p[1][0]);
          j[0][2 * i + 1] = J(i, 1, p[0][0], p[0][1], p[1][0]);
        }
        if (j[1] != nullptr) j[1][i] = J(i, 2, p[0][0], p[0][1], p[1][0]);
      }
    }
    return Ok(p[0][0], p[0][1], p[1][0]) > 0;
  }
};
struct Cond0 : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    double x = p[0][0];
    r[0] = C0(x);
    if (j != nullptr && j[0] != nullptr) j[0][0] = D0(x);
    return Ok0(x) > 0;
  }
};
struct Cond1 : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    double x = p[0][0];
    r[0] = C1(x);
    if (j != nullptr && j[0] != nullptr) j[0][0] = D1(x);
    return Ok1(x) > 0;
  }
};
bool Conditioned(double const* const* p, double* r, double** j, int c0, int c1) {
  std::vector<ceres::CostFunction*> c(2, nullptr);
  if (c0 != 0) c[0] = new Cond0;
  if (c1 != 0) c[1] = new Cond1;
  ceres::ConditionedCostFunction f(new Cost, c, ceres::DO_NOT_TAKE_OWNERSHIP);
  return f.Evaluate(p, r, j);
}
bool Prior(double const* const* p, double* r, double** j, const ceres::Matrix& a, const ceres::Vector& b) {
  ceres::NormalPrior f(a, b);
  return f.Evaluate(p, r, j);
}
using J4 = ceres::Jet<double, 4>;
bool DynD(double const* const* p, double* r) {
  ceres::DynamicCostFunctionToFunctor f(new Cost);
  return f(p, r);
}
bool DynJ(J4 const* const* p, J4* r) {
  ceres::DynamicCostFunctionToFunctor f(new Cost);
  return f(p, r);
}
bool FixD(double const* const* p, double* r) {
  ceres::CostFunctionToFunctor<2, 2, 1> f(new Cost);
  return f(p[0], p[1], r);
}
bool FixJ(J4 const* const* p, J4* r) {
  ceres::CostFunctionToFunctor<2, 2, 1> f(new Cost);
  return f(p[0], p[1], r);
}
bool FixDynJ(J4 const* const* p, J4* r) {
  ceres::CostFunctionToFunctor<ceres::DYNAMIC, 2, 1> f(new Cost);
  return f(p[0], p[1], r);
}
double PJ(int, double, double);
double OkPJ(double, double);
struct Man : ceres::Manifold {
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 1; }
  bool Plus(const double*, const double*, double*) const override { return true; }
  bool Minus(const double*, const double*, double*) const override { return true; }
  bool MinusJacobian(const double*, double*) const override { return true; }
  bool PlusJacobian(const double* x, double* j) const override {
    j[0] = PJ(0, x[0], x[1]);
    j[1] = PJ(1, x[0], x[1]);
    return OkPJ(x[0], x[1]) > 0;
  }
};
double Extra(int), OkJ(int);
// Residuals that depend on whether Jacobians were asked for.
struct Flaky : Cost {
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    bool ok = Cost::Evaluate(p, r, j);
    if (j != nullptr) {
      r[0] += Extra(0);
      r[1] += Extra(1);
    }
    return ok && (j == nullptr || OkJ(0) > 0);
  }
};
bool Probe(double const* const* p, double prec, double step, int manifolds, ceres::GradientChecker::ProbeResults* out) {
  Flaky c;
  Man m;
  std::vector<const ceres::Manifold*> ms(2, nullptr);
  ms[0] = &m;
  ceres::NumericDiffOptions o;
  o.ridders_relative_initial_step_size = step;
  o.max_num_ridders_extrapolations = 1;
  ceres::GradientChecker g(&c, manifolds != 0 ? &ms : nullptr, o);
  return g.Probe(p, prec, out);
}
}  // namespace w
