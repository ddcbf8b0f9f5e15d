// Never compiled to code: parameter blocks and programs.
#include <limits>
#include "ceres/evaluation_callback.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "residual.cc"
namespace w {
using ceres::internal::Program;
struct Man2 : ceres::Manifold {       // a point: the block cannot move
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 0; }
  bool Plus(const double* x, const double*, double* y) const override {
    y[0] = x[0];
    y[1] = x[1];
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return true; }
  bool MinusJacobian(const double*, double*) const override { return true; }
  bool PlusJacobian(const double*, double*) const override { return true; }
};
// Three blocks over one state vector: sizes 2 (Man0: tangent 1), 1 (Man1), 2 (plain).
struct World {
  Man0 m0;
  Man1 m1;
  Man2 m2;
  ParameterBlock b0, b1, b2;
  Program p;
  World(double* u, int man, int cst, int order) : b0(u, 2, -1), b1(u + 2, 1, -1), b2(u + 3, 2, -1) {
    if ((man & 1) != 0) b0.SetManifold(&m0);
    if ((man & 2) != 0) b1.SetManifold(&m1);
    if ((man & 4) != 0) b2.SetManifold(&m2);
    if ((cst & 1) != 0) b0.SetConstant();
    if ((cst & 2) != 0) b1.SetConstant();
    if ((cst & 4) != 0) b2.SetConstant();
    std::vector<ParameterBlock*>* bs = p.mutable_parameter_blocks();
    if (order != 0) {
      bs->push_back(&b2);
      bs->push_back(&b0);
      bs->push_back(&b1);
    } else {
      bs->push_back(&b0);
      bs->push_back(&b1);
      bs->push_back(&b2);
    }
    p.SetParameterOffsetsAndIndex();
  }
  ParameterBlock* block(int i) { return i < 2 ? &b0 : i == 2 ? &b1 : &b2; }
  int at(int i) { return i < 2 ? i : i == 2 ? 0 : i - 3; }
  void bounds(const double* lo, const double* hi, int lomask, int himask) {
    for (int i = 0; i < 5; ++i) {
      if ((lomask & (1 << i)) != 0) block(i)->SetLowerBound(at(i), lo[i]);
      if ((himask & (1 << i)) != 0) block(i)->SetUpperBound(at(i), hi[i]);
    }
  }
};
bool PlusAll(double* u, int man, int order, const double* lo, const double* hi, int lm, int hm, const double* x, const double* d, double* out) {
  World w(u, man, 0, order);
  w.bounds(lo, hi, lm, hm);
  return w.p.Plus(x, d, out, nullptr, 1);
}
void Bounds(double* u, const double* lo, const double* hi, int lm, int hm, const double* lo2, const double* hi2, int lm2, int hm2, double* out) {
  World w(u, 0, 0, 0);
  w.bounds(lo, hi, lm, hm);
  w.bounds(lo2, hi2, lm2, hm2);
  for (int i = 0; i < 5; ++i) {
    out[4 * i] = w.block(i)->LowerBound(w.at(i));
    out[4 * i + 1] = w.block(i)->UpperBound(w.at(i));
    out[4 * i + 2] = w.block(i)->LowerBoundForParameter(w.at(i));
    out[4 * i + 3] = w.block(i)->UpperBoundForParameter(w.at(i));
  }
  for (int i = 0; i < 3; ++i) {
    ParameterBlock* b = i == 0 ? &w.b0 : i == 1 ? &w.b1 : &w.b2;
    out[20 + i] = b->IsLowerBounded() ? 1 : 0;
    out[23 + i] = b->IsUpperBounded() ? 1 : 0;
  }
}
bool Feasible(double* u, int man, int cst, const double* lo, const double* hi, int lm, int hm) {
  World w(u, man, cst, 0);
  w.bounds(lo, hi, lm, hm);
  std::string s;
  return w.p.IsFeasible(&s);
}
bool Constrained(double* u, int man, int cst, const double* lo, const double* hi, int lm, int hm) {
  World w(u, man, cst, 0);
  w.bounds(lo, hi, lm, hm);
  return w.p.IsBoundsConstrained();
}
bool Finite(double* u, int cst) {
  World w(u, 0, cst, 0);
  std::string s;
  return w.p.ParameterBlocksAreFinite(&s);
}
// State vector in, state vector out; nothing but CopyParameterBlockStateToUserState touches the user's memory.
bool Transfer(double* u, int man, int cst, int order, const double* x, double* before, double* after, double* user_before, double* user_after) {
  World w(u, man, cst, order);
  w.p.ParameterBlocksToStateVector(before);
  if (!w.p.StateVectorToParameterBlocks(x)) return false;
  w.p.ParameterBlocksToStateVector(after);
  for (int i = 0; i < 5; ++i) user_before[i] = u[i];
  w.p.CopyParameterBlockStateToUserState();
  for (int i = 0; i < 5; ++i) user_after[i] = u[i];
  return w.p.SetParameterBlockStatePtrsToUserStatePtrs();
}
void Indices(double* u, int man, int cst, int order, int* out) {
  World w(u, man, cst, order);
  ParameterBlock* b[3] = {&w.b0, &w.b1, &w.b2};
  for (int i = 0; i < 3; ++i) {
    out[4 * i] = b[i]->index();
    out[4 * i + 1] = b[i]->state_offset();
    out[4 * i + 2] = b[i]->delta_offset();
    out[4 * i + 3] = b[i]->IsConstant() ? 1 : 0;
  }
  out[12] = w.p.NumParameters();
  out[13] = w.p.NumEffectiveParameters();
  out[14] = w.p.NumParameterBlocks();
  out[15] = w.p.IsValid() ? 1 : 0;
}
struct Unary : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    r[0] = R1(p[0][0], 0, 0);
    if (j != nullptr && j[0] != nullptr) j[0][0] = 1;
    return Ok(p[0][0], 1, 1) > 0;
  }
};
// Residuals: r0 on (b0, b1), r1 on b1 alone. Reports what the reduced program keeps.
bool Reduce(double* u, int man, int cst, double* fixed_cost, int* out) {
  World w(u, man, cst, 0);
  Cost c;
  Unary un;
  Loss l;
  std::vector<ParameterBlock*> bs0, bs1;
  bs0.push_back(&w.b0);
  bs0.push_back(&w.b1);
  bs1.push_back(&w.b1);
  ResidualBlock r0(&c, nullptr, bs0, 0), r1(&un, &l, bs1, 1);
  w.p.mutable_residual_blocks()->push_back(&r0);
  w.p.mutable_residual_blocks()->push_back(&r1);
  std::vector<double*> removed;
  std::string error;
  auto q = w.p.CreateReducedProgram(&removed, fixed_cost, &error);
  if (q == nullptr) return false;
  out[0] = q->NumParameterBlocks();
  out[1] = q->NumResidualBlocks();
  out[2] = static_cast<int>(removed.size());
  for (int i = 0; i < q->NumParameterBlocks(); ++i) out[3 + i] = q->parameter_blocks()[i] == &w.b0 ? 0 : q->parameter_blocks()[i] == &w.b1 ? 1 : 2;
  for (int i = 0; i < q->NumResidualBlocks(); ++i) out[6 + i] = q->residual_blocks()[i] == &r0 ? 0 : 1;
  out[8] = w.p.NumParameterBlocks();
  out[9] = w.p.NumResidualBlocks();
  for (int i = 0; i < q->NumParameterBlocks(); ++i) out[10 + i] = q->parameter_blocks()[i]->index();
  for (size_t i = 0; i < removed.size(); ++i) out[13 + i] = removed[i] == u ? 0 : removed[i] == u + 2 ? 1 : removed[i] == u + 3 ? 2 : 9;
  return true;
}
}  // namespace w
