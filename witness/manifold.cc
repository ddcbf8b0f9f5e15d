// Instantiation witness for the manifolds (never executed).
#include "ceres/autodiff_manifold.h"
#include "ceres/line_manifold.h"
#include "ceres/manifold.h"
#include "ceres/product_manifold.h"
#include "ceres/sphere_manifold.h"
namespace ceres {
template class EuclideanManifold<3>;
template class EuclideanManifold<ceres::DYNAMIC>;
template class SphereManifold<2>;
template class SphereManifold<3>;
template class SphereManifold<4>;
template class LineManifold<2>;
template class LineManifold<3>;
}  // namespace ceres
namespace w {
inline ceres::Manifold* dyn_sphere() { return new ceres::SphereManifold<ceres::DYNAMIC>(3); }
inline ceres::Manifold* dyn_line() { return new ceres::LineManifold<ceres::DYNAMIC>(3); }
using Prod = ceres::ProductManifold<ceres::EuclideanManifold<2>, ceres::QuaternionManifold, ceres::SphereManifold<3>>;
inline Prod* make_prod() { return new Prod(ceres::EuclideanManifold<2>{}, ceres::QuaternionManifold{}, ceres::SphereManifold<3>{}); }
// an unspecified differentiable Plus/Minus pair on a 3-dimensional ambient space with a 2-dimensional tangent
struct F {
  template <typename T>
  bool Plus(const T* x, const T* d, T* y) const {
    y[0] = x[0] * exp(d[0]);
    y[1] = x[1] + d[1] * x[0];
    y[2] = x[2] + sin(d[0] + d[1]) * x[1];
    return x[0] > 0.0;
  }
  template <typename T>
  bool Minus(const T* y, const T* x, T* d) const {
    d[0] = log(y[0] / x[0]) * x[2];
    d[1] = (y[1] - x[1]) * y[2] / x[0] + (y[2] - x[2]);
    return x[2] > 0.0;
  }
};
using Auto = ceres::AutoDiffManifold<F, 3, 2>;
inline Auto* make_auto() { return new Auto; }
// a manifold whose operations report failure depending on the point
struct Fallible final : ceres::Manifold {
  int AmbientSize() const override { return 1; }
  int TangentSize() const override { return 1; }
  bool Plus(const double* x, const double* d, double* y) const override { y[0] = x[0] + d[0]; return x[0] > 1.0; }
  bool PlusJacobian(const double* x, double* j) const override { j[0] = 1.0; return x[0] > 2.0; }
  bool Minus(const double* y, const double* x, double* d) const override { d[0] = y[0] - x[0]; return x[0] > 3.0; }
  bool MinusJacobian(const double* x, double* j) const override { j[0] = 1.0; return x[0] > 4.0; }
};
inline ceres::Manifold* make_fallible() { return new Fallible; }
using FProd = ceres::ProductManifold<Fallible, Fallible, std::unique_ptr<Fallible>>;
inline FProd* make_fprod() { return new FProd(Fallible{}, Fallible{}, std::make_unique<Fallible>()); }
}  // namespace w
