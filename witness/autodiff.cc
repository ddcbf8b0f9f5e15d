// Never compiled to code: instantiates the automatic differentiation wrappers.
#include "ceres/autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
namespace w {
struct Fn {
  int ok;
  explicit Fn(int o) : ok(o) {}
  template <typename T>
  bool operator()(const T* x, const T* y, const T* z, T* r) const {
    r[0] = x[0] * y[0] + sin(x[1]) * z[2] - T(3.0) * z[0];
    r[1] = z[1] * x[0] * x[0] + exp(y[0]) + z[0] * z[2];
    return ok != 0;
  }
};
struct Dyn {
  int ok;
  explicit Dyn(int o) : ok(o) {}
  template <typename T>
  bool operator()(T const* const* p, T* r) const {
    const T *x = p[0], *y = p[1], *z = p[2];
    r[0] = x[0] * y[0] + sin(x[1]) * z[2] - T(3.0) * z[0];
    r[1] = z[1] * x[0] * x[0] + exp(y[0]) + z[0] * z[2];
    return ok != 0;
  }
};
struct Four {
  int ok;
  explicit Four(int o) : ok(o) {}
  template <typename T>
  bool operator()(T const* const* p, T* r) const {
    const T *x = p[0], *y = p[1], *z = p[2], *u = p[3];
    r[0] = x[0] * y[0] + sin(u[1]) * z[1] - T(3.0) * z[0];
    r[1] = z[1] * x[0] * u[0] + exp(y[1]);
    r[2] = y[0] * y[1] * u[1] * x[0] * z[0] * u[0];
    return ok != 0;
  }
};
struct One {
  int ok;
  explicit One(int o) : ok(o) {}
  int NumResiduals() const { return 2; }
  template <typename T>
  bool operator()(const T* z, T* r) const {
    r[0] = sin(z[1]) * z[2] - T(3.0) * z[0];
    r[1] = z[1] * exp(z[0]) + z[0] * z[2];
    return ok != 0;
  }
};
struct Scalar {
  int ok;
  explicit Scalar(int o) : ok(o) {}
  template <typename T>
  bool operator()(const T* z, T* r) const {
    r[0] = sin(z[1]) * z[2] - T(3.0) * z[0];
    return ok != 0;
  }
};
struct Big {
  int ok;
  explicit Big(int o) : ok(o) {}
  template <typename T>
  bool operator()(const T* x, const T* y, T* r) const {
    for (int i = 0; i < 21; ++i) r[i] = x[i] * y[0] - x[50] * T(i);
    return ok != 0;
  }
};
bool BigFn(double const* const* p, double* r, double** j, int ok) {
  ceres::AutoDiffCostFunction<Big, 21, 51, 1> f(new Big(ok));
  return f.Evaluate(p, r, j);
}
bool StaticFn(double const* const* p, double* r, double** j, int ok) {
  ceres::AutoDiffCostFunction<Fn, 2, 2, 1, 3> f(new Fn(ok));
  return f.Evaluate(p, r, j);
}
bool DynamicResidualsFn(double const* const* p, double* r, double** j, int ok) {
  ceres::AutoDiffCostFunction<Fn, ceres::DYNAMIC, 2, 1, 3> f(new Fn(ok), 2);
  return f.Evaluate(p, r, j);
}
template <int S>
bool DynImpl(double const* const* p, double* r, double** j, int ok) {
  ceres::DynamicAutoDiffCostFunction<Dyn, S> f(new Dyn(ok));
  f.AddParameterBlock(2);
  f.AddParameterBlock(1);
  f.AddParameterBlock(3);
  f.SetNumResiduals(2);
  return f.Evaluate(p, r, j);
}
template <int S>
bool FourImpl(double const* const* p, double* r, double** j, int ok) {
  ceres::DynamicAutoDiffCostFunction<Four, S> f(new Four(ok));
  f.AddParameterBlock(1);
  f.AddParameterBlock(2);
  f.AddParameterBlock(2);
  f.AddParameterBlock(2);
  f.SetNumResiduals(3);
  return f.Evaluate(p, r, j);
}
bool DynFn1(double const* const* p, double* r, double** j, int ok) { return DynImpl<1>(p, r, j, ok); }
bool DynFn2(double const* const* p, double* r, double** j, int ok) { return DynImpl<2>(p, r, j, ok); }
bool DynFn3(double const* const* p, double* r, double** j, int ok) { return DynImpl<3>(p, r, j, ok); }
bool DynFn4(double const* const* p, double* r, double** j, int ok) { return DynImpl<4>(p, r, j, ok); }
bool DynFn5(double const* const* p, double* r, double** j, int ok) { return DynImpl<5>(p, r, j, ok); }
bool DynFn6(double const* const* p, double* r, double** j, int ok) { return DynImpl<6>(p, r, j, ok); }
bool DynFn7(double const* const* p, double* r, double** j, int ok) { return DynImpl<7>(p, r, j, ok); }
bool FourFn1(double const* const* p, double* r, double** j, int ok) { return FourImpl<1>(p, r, j, ok); }
bool FourFn2(double const* const* p, double* r, double** j, int ok) { return FourImpl<2>(p, r, j, ok); }
bool FourFn3(double const* const* p, double* r, double** j, int ok) { return FourImpl<3>(p, r, j, ok); }
bool FourFn4(double const* const* p, double* r, double** j, int ok) { return FourImpl<4>(p, r, j, ok); }
bool FourFn8(double const* const* p, double* r, double** j, int ok) { return FourImpl<8>(p, r, j, ok); }
bool FirstOrder(const double* p, double* c, double* g, int ok) {
  ceres::AutoDiffFirstOrderFunction<Scalar, 3> f(new Scalar(ok));
  return f.Evaluate(p, c, g);
}
bool TinyFixed(const double* p, double* r, double* j, int ok) {
  One o(ok);
  ceres::TinySolverAutoDiffFunction<One, 2, 3> f(o);
  return f(p, r, j);
}
bool TinyDynamic(const double* p, double* r, double* j, int ok) {
  One o(ok);
  ceres::TinySolverAutoDiffFunction<One, Eigen::Dynamic, 3> f(o);
  return f(p, r, j);
}
bool TinyMax(const double* p, double* r, double* j, int ok) {
  One o(ok);
  ceres::TinySolverAutoDiffFunction<One, Eigen::Dynamic, 3, double, 5> f(o);
  return f(p, r, j);
}
template <int R, int P>
bool AdapterImpl(const double* p, double* r, double* j, int ok) {
  ceres::AutoDiffCostFunction<One, 2, 3> c(new One(ok));
  ceres::TinySolverCostFunctionAdapter<R, P> f(c);
  return f(p, r, j);
}
bool AdapterFF(const double* p, double* r, double* j, int ok) { return AdapterImpl<2, 3>(p, r, j, ok); }
bool AdapterDF(const double* p, double* r, double* j, int ok) { return AdapterImpl<Eigen::Dynamic, 3>(p, r, j, ok); }
bool AdapterFD(const double* p, double* r, double* j, int ok) { return AdapterImpl<2, Eigen::Dynamic>(p, r, j, ok); }
bool AdapterDD(const double* p, double* r, double* j, int ok) { return AdapterImpl<Eigen::Dynamic, Eigen::Dynamic>(p, r, j, ok); }
// A second evaluation of the same object at another point.
bool TinyAgain(const double* p, double* r, double* j, int ok) {
  One o(ok);
  ceres::TinySolverAutoDiffFunction<One, Eigen::Dynamic, 3> f(o);
  double q[3] = {1.5, -2.5, 0.25}, r0[2], j0[6];
  f(q, r0, j0);
  f(q, r0, nullptr);
  return f(p, r, j);
}
bool AdapterAgain(const double* p, double* r, double* j, int ok) {
  ceres::AutoDiffCostFunction<One, 2, 3> c(new One(ok));
  ceres::TinySolverCostFunctionAdapter<2, 3> f(c);
  double q[3] = {1.5, -2.5, 0.25}, r0[2], j0[6];
  f(q, r0, j0);
  f(q, r0, nullptr);
  return f(p, r, j);
}
}  // namespace w
