// Never compiled to code: TinySolver over uninterpreted residuals, Jacobians and linear solver.
#include "ceres/tiny_solver.h"
namespace w {
double R(int i, double x0, double x1);
double J(int i, int j, double x0, double x1);
double Sol(int i, double m00, double m01, double m10, double m11, double g0, double g1);
template <int NR, int NP>
struct Fn {
  using Scalar = double;
  enum { NUM_RESIDUALS = NR, NUM_PARAMETERS = NP };
  int NumResiduals() const { return 3; }
  int NumParameters() const { return 2; }
  bool operator()(const double* x, double* r, double* j) const {
    for (int i = 0; i < 3; ++i) {
      r[i] = R(i, x[0], x[1]);
      if (j != nullptr) {
        j[i] = J(i, 0, x[0], x[1]);
        j[3 + i] = J(i, 1, x[0], x[1]);
      }
    }
    return true;
  }
};
struct Lin {
  double m[4];
  template <typename M>
  void compute(const M& a) {
    m[0] = a(0, 0);
    m[1] = a(0, 1);
    m[2] = a(1, 0);
    m[3] = a(1, 1);
  }
  template <typename V>
  V solve(const V& g) const {
    V s(g);
    s(0) = Sol(0, m[0], m[1], m[2], m[3], g(0), g(1));
    s(1) = Sol(1, m[0], m[1], m[2], m[3], g(0), g(1));
    return s;
  }
};
template <int NR, int NP>
void Run(double* x, const double* again, int iterations, const double* opt, double* out) {
  using F = Fn<NR, NP>;
  using S = ceres::TinySolver<F, 3, 2, Lin>;
  S s;
  F f;
  s.options.max_num_iterations = iterations;
  s.options.gradient_tolerance = opt[0];
  s.options.parameter_tolerance = opt[1];
  s.options.function_tolerance = opt[2];
  s.options.cost_threshold = opt[3];
  s.options.initial_trust_region_radius = opt[4];
  typename S::ParameterVector p(2, 1);
  if (again != nullptr) {  // one object, two problems in a row
    p(0) = again[0];
    p(1) = again[1];
    s.Solve(f, &p);
  }
  p(0) = x[0];
  p(1) = x[1];
  const typename S::Summary& sum = s.Solve(f, &p);
  x[0] = p(0);
  x[1] = p(1);
  out[0] = sum.initial_cost;
  out[1] = sum.final_cost;
  out[2] = sum.gradient_max_norm;
  out[3] = sum.iterations;
  out[4] = sum.status;
  typename S::ResidualVector r = s.Residuals();
  typename S::JacobianMatrix j = s.Jacobian();
  for (int i = 0; i < 3; ++i) {
    out[5 + i] = r(i);
    out[8 + i] = j(i, 0);
    out[11 + i] = j(i, 1);
  }
}
void Fixed(double* x, const double* again, int n, const double* opt, double* out) { Run<3, 2>(x, again, n, opt, out); }
void DynR(double* x, const double* again, int n, const double* opt, double* out) { Run<Eigen::Dynamic, 2>(x, again, n, opt, out); }
void DynP(double* x, const double* again, int n, const double* opt, double* out) { Run<3, Eigen::Dynamic>(x, again, n, opt, out); }
void Dyn(double* x, const double* again, int n, const double* opt, double* out) { Run<Eigen::Dynamic, Eigen::Dynamic>(x, again, n, opt, out); }
}  // namespace w
