// Never compiled to code: line search directions over arbitrary sequences of states.
#include "ceres/line_search_direction.h"
#include "ceres/line_search_minimizer.h"
namespace w {
using namespace ceres::internal;
// gradients: (steps + 1) x n; steps taken: steps x n search directions and step sizes; norms: squared gradient norm per state
void Directions(int type, int nlcg, int rank, int scaling, int n, int steps, double tolerance, const double* g, const double* d, const double* t, const double* norms, double* out, double* ok) {
  LineSearchDirection::Options o;
  o.num_parameters = n;
  o.type = type == 0 ? ceres::STEEPEST_DESCENT : type == 1 ? ceres::NONLINEAR_CONJUGATE_GRADIENT : type == 2 ? ceres::BFGS : ceres::LBFGS;
  o.nonlinear_conjugate_gradient_type = nlcg == 0 ? ceres::FLETCHER_REEVES : nlcg == 1 ? ceres::POLAK_RIBIERE : ceres::HESTENES_STIEFEL;
  o.function_tolerance = tolerance;
  o.max_lbfgs_rank = rank;
  o.use_approximate_eigenvalue_bfgs_scaling = scaling != 0;
  std::unique_ptr<LineSearchDirection> direction = LineSearchDirection::Create(o);
  for (int k = 0; k < steps; ++k) {
    LineSearchMinimizer::State previous(n, n);
    LineSearchMinimizer::State current(n, n);
    for (int i = 0; i < n; ++i) {
      previous.gradient(i) = g[n * k + i];
      previous.search_direction(i) = d[n * k + i];
      current.gradient(i) = g[n * (k + 1) + i];
      current.search_direction(i) = d[n * k + i];
    }
    previous.step_size = t[k];
    previous.gradient_squared_norm = norms[k];
    current.gradient_squared_norm = norms[k + 1];
    ok[k] = direction->NextDirection(previous, current, &current.search_direction) ? 1 : 0;
    for (int i = 0; i < n; ++i) out[n * k + i] = current.search_direction(i);
  }
}
}  // namespace w
