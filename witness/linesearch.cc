// Never compiled to code: polynomials and line searches over an uninterpreted univariate function.
#include "ceres/evaluator.h"
#include "ceres/function_sample.h"
#include "ceres/line_search.h"
#include "ceres/polynomial.h"
#include "ceres/sparse_matrix.h"
namespace w {
using namespace ceres::internal;
using ceres::Vector;
double Cost(double x0, double x1);
double Grad(int i, double x0, double x1);
double EvalOk(double x0, double x1);
double Plus(int i, double x0, double x1, double d0, double d1);
double PlusOk(double x0, double x1, double d0, double d1);
Vector Make(const double* p, int n) {
  Vector v(n);
  for (int i = 0; i < n; ++i) v(i) = p[i];
  return v;
}
void Roots(const double* p, int n, int which, double* ok, double* re, double* im) {
  Vector r, i;
  ok[0] = FindPolynomialRoots(Make(p, n), (which & 1) != 0 ? &r : nullptr, (which & 2) != 0 ? &i : nullptr) ? 1 : 0;
  ok[1] = r.rows();
  ok[2] = i.rows();
  for (int k = 0; k < r.rows(); ++k) re[k] = r(k);
  for (int k = 0; k < i.rows(); ++k) im[k] = i(k);
}
void Value(const double* p, int n, double x, double* out) {
  out[0] = EvaluatePolynomial(Make(p, n), x);
  Vector d = DifferentiatePolynomial(Make(p, n));
  out[1] = d.rows();
  for (int k = 0; k < d.rows(); ++k) out[2 + k] = d(k);
}
void Min(const double* p, int n, double lo, double hi, double* out) { MinimizePolynomial(Make(p, n), lo, hi, out, out + 1); }
// s: x, value, gradient per sample; valid: value and gradient validity per sample
std::vector<FunctionSample> Samples(const double* s, const int* valid, int n) {
  std::vector<FunctionSample> v;
  for (int k = 0; k < n; ++k) {
    FunctionSample f;
    f.x = s[3 * k];
    f.value = s[3 * k + 1];
    f.gradient = s[3 * k + 2];
    f.value_is_valid = valid[2 * k] != 0;
    f.gradient_is_valid = valid[2 * k + 1] != 0;
    v.push_back(f);
  }
  return v;
}
void Interpolate(const double* s, const int* valid, int n, double* out) {
  Vector p = FindInterpolatingPolynomial(Samples(s, valid, n));
  out[0] = p.rows();
  for (int k = 0; k < p.rows(); ++k) out[1 + k] = p(k);
}
void MinInterp(const double* s, const int* valid, int n, double lo, double hi, double* out) { MinimizeInterpolatingPolynomial(Samples(s, valid, n), lo, hi, out, out + 1); }

struct LEval : Evaluator {
  bool Evaluate(const EvaluateOptions& o, const double* x, double* cost, double* residuals, double* gradient, SparseMatrix* jacobian) override {
    if (EvalOk(x[0], x[1]) <= 0 || !o.new_evaluation_point || !o.apply_loss_function || jacobian != nullptr || residuals != nullptr) return false;
    *cost = Cost(x[0], x[1]);
    for (int i = 0; i < 2; ++i)
      if (gradient != nullptr) gradient[i] = Grad(i, x[0], x[1]);
    return true;
  }
  bool Plus(const double* x, const double* d, double* y) const override {
    if (PlusOk(x[0], x[1], d[0], d[1]) <= 0) return false;
    const double y0 = w::Plus(0, x[0], x[1], d[0], d[1]), y1 = w::Plus(1, x[0], x[1], d[0], d[1]);
    y[0] = y0;
    y[1] = y1;
    return true;
  }
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  int NumParameters() const override { return 2; }
  int NumEffectiveParameters() const override { return 2; }
  int NumResiduals() const override { return 2; }
};
void Put(const FunctionSample& f, double* z) {
  z[0] = f.x;
  z[1] = f.vector_x_is_valid ? 1 : 0;
  z[2] = f.value_is_valid ? 1 : 0;
  z[3] = f.gradient_is_valid ? 1 : 0;
  z[4] = f.vector_gradient_is_valid ? 1 : 0;
  if (f.vector_x_is_valid) {
    z[5] = f.vector_x(0);
    z[6] = f.vector_x(1);
  }
  if (f.value_is_valid) z[7] = f.value;
  if (f.gradient_is_valid) z[8] = f.gradient;
  if (f.vector_gradient_is_valid) {
    z[9] = f.vector_gradient(0);
    z[10] = f.vector_gradient(1);
  }
}
void Sample(const double* x, const double* d, double t, int gradient, double* out) {
  LEval e;
  LineSearchFunction f(&e);
  f.Init(Make(x, 2), Make(d, 2));
  FunctionSample s(3, 4, 5);  // a sample that was used before
  s.vector_x_is_valid = s.vector_gradient_is_valid = true;
  s.vector_x = s.vector_gradient = Make(x, 2);
  f.Evaluate(t, gradient != 0, &s);
  Put(s, out);
  out[11] = f.DirectionInfinityNorm();
}
void Interp(const double* s, const int* valid, int type, double lo, double hi, double* out) {
  LineSearch::Options o;
  ArmijoLineSearch a(o);
  std::vector<FunctionSample> v = Samples(s, valid, 3);
  out[0] = a.InterpolatingPolynomialMinimizingStepSize(type == 0 ? ceres::BISECTION : type == 1 ? ceres::QUADRATIC : ceres::CUBIC, v[0], v[1], v[2], lo, hi);
}
// opt: sufficient decrease, curvature decrease, max contraction, min contraction, min step size, max expansion
void Search(int wolfe, const double* opt, int type, int iterations, const double* x, const double* d, double t, double cost, double slope, double* out) {
  LEval e;
  LineSearchFunction f(&e);
  LineSearch::Options o;
  o.interpolation_type = type == 0 ? ceres::BISECTION : type == 1 ? ceres::QUADRATIC : ceres::CUBIC;
  o.sufficient_decrease = opt[0];
  o.sufficient_curvature_decrease = opt[1];
  o.max_step_contraction = opt[2];
  o.min_step_contraction = opt[3];
  o.min_step_size = opt[4];
  o.max_step_expansion = opt[5];
  o.max_num_iterations = iterations;
  o.is_silent = true;
  o.function = &f;
  f.Init(Make(x, 2), Make(d, 2));
  LineSearch::Summary s;
  s.success = true;
  s.num_iterations = 77;
  if (wolfe != 0) {
    WolfeLineSearch a(o);
    a.Search(t, cost, slope, &s);
  } else {
    ArmijoLineSearch a(o);
    a.Search(t, cost, slope, &s);
  }
  Put(s.optimal_point, out);
  out[11] = s.success ? 1 : 0;
  out[12] = s.num_iterations;
  out[13] = s.num_function_evaluations;
  out[14] = s.num_gradient_evaluations;
}
}  // namespace w
