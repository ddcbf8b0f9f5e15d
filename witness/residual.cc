// Never compiled to code: residual and parameter blocks.
#include "ceres/cost_function.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/parameter_block.h"
#include "ceres/residual_block.h"
#include "ceres/sized_cost_function.h"
namespace w {
double R0(double, double, double), R1(double, double, double), J(int row, int col, double, double, double), Ok(double, double, double);
double Fill(int what);
double Rho(int k, double s);
double PJ(int block, int row, int col, double first), OkPJ(int block), Pl(int block, int i, double, double), OkPl(int block);
struct Cost : ceres::SizedCostFunction<2, 2, 1> {
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    if (Fill(0) > 0) r[0] = R0(p[0][0], p[0][1], p[1][0]);
    if (Fill(1) > 0) r[1] = R1(p[0][0], p[0][1], p[1][0]);
    if (j != nullptr) {
      for (int i = 0; i < 2; ++i) {
        if (j[0] != nullptr) {
          j[0][2 * i] = J(i, 0, p[0][0], p[0][1], p[1][0]);
          if (i == 0 || Fill(2) > 0) j[0][2 * i + 1] = J(i, 1, p[0][0], p[0][1], p[1][0]);
        }
        if (j[1] != nullptr && (i == 0 || Fill(3) > 0)) j[1][i] = J(i, 2, p[0][0], p[0][1], p[1][0]);
      }
    }
    return Ok(p[0][0], p[0][1], p[1][0]) > 0;
  }
};
struct Loss : ceres::LossFunction {
  void Evaluate(double s, double* rho) const override {
    rho[0] = Rho(0, s);
    rho[1] = Rho(1, s);
    rho[2] = Rho(2, s);
  }
};
// Block 0: ambient 2, tangent 1.
struct Man0 : ceres::Manifold {
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 1; }
  bool Plus(const double* x, const double* d, double* y) const override {
    double a = Pl(0, 0, x[0], d[0]), b = Pl(0, 1, x[1], d[0]);
    y[0] = a;
    y[1] = b;
    return OkPl(0) > 0;
  }
  bool Minus(const double*, const double*, double*) const override { return true; }
  bool MinusJacobian(const double*, double*) const override { return true; }
  bool PlusJacobian(const double* x, double* j) const override {
    j[0] = PJ(0, 0, 0, x[0]);
    j[1] = PJ(0, 1, 0, x[1]);
    return OkPJ(0) > 0;
  }
};
// Block 1: one coordinate, moved along a curve.
struct Man1 : ceres::Manifold {
  int AmbientSize() const override { return 1; }
  int TangentSize() const override { return 1; }
  bool Plus(const double* x, const double* d, double* y) const override {
    y[0] = Pl(1, 0, x[0], d[0]);
    return OkPl(1) > 0;
  }
  bool Minus(const double*, const double*, double*) const override { return true; }
  bool MinusJacobian(const double*, double*) const override { return true; }
  bool PlusJacobian(const double* x, double* j) const override {
    j[0] = PJ(1, 0, 0, x[0]);
    return OkPJ(1) > 0;
  }
};
using ceres::internal::ParameterBlock;
using ceres::internal::ResidualBlock;
bool Eval(double* u0, double* u1, const double* s0, const double* s1, int m0, int m1, int loss, bool apply, double* cost, double* r, double** j, double* scratch) {
  ParameterBlock b0(u0, 2, 0), b1(u1, 1, 1);
  Man0 man0;
  Man1 man1;
  if (m0 != 0) b0.SetManifold(&man0);
  if (m1 != 0) b1.SetManifold(&man1);
  b0.SetState(s0);
  b1.SetState(s1);
  Cost c;
  Loss l;
  std::vector<ParameterBlock*> bs;
  bs.push_back(&b0);
  bs.push_back(&b1);
  ResidualBlock rb(&c, loss != 0 ? &l : nullptr, bs, 0);
  return rb.Evaluate(apply, cost, r, j, scratch);
}
int Scratch(double* u0, double* u1, int m0, int m1) {
  ParameterBlock b0(u0, 2, 0), b1(u1, 1, 1);
  Man0 man0;
  Man1 man1;
  if (m0 != 0) b0.SetManifold(&man0);
  if (m1 != 0) b1.SetManifold(&man1);
  Cost c;
  std::vector<ParameterBlock*> bs;
  bs.push_back(&b0);
  bs.push_back(&b1);
  ResidualBlock rb(&c, nullptr, bs, 0);
  return rb.NumScratchDoublesForEvaluate();
}
}  // namespace w
