// Never compiled to code: histories of operations on a problem.
#include <array>
#include <cstddef>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>
#include "ceres/types.h"
#define private public
#include "ceres/problem.h"
#undef private
#include "evaluator.cc"
#include "ceres/crs_matrix.h"
#include "ceres/problem.h"
#include "ceres/types.h"

namespace w {
void Mark();
template <typename T>
int Find(const std::vector<T*>& v, const T* p) {
  for (int i = 0; i < static_cast<int>(v.size()); ++i) {
    if (v[i] == p) return i;
  }
  return -1;
}
struct History {
  std::vector<double*> at;
  std::vector<int> size;
  std::vector<Cost*> costs;
  std::vector<Loss*> losses;
  std::vector<Man*> mans;
  std::vector<ResidualBlock*> rs;
  Problem* p;

  // o = fast removal, ownership of costs, losses and manifolds, no safety checks; s = the blocks, cost functions, losses and manifolds of the user
  const int* Begin(double* u, const int* o, Context* context, EvaluationCallback* callback, const int* s) {
    Problem::Options options;
    options.enable_fast_removal = o[0] != 0;
    options.cost_function_ownership = o[1] != 0 ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP;
    options.loss_function_ownership = o[2] != 0 ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP;
    options.manifold_ownership = o[3] != 0 ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP;
    options.disable_all_safety_checks = o[4] != 0;
    options.context = context;
    options.evaluation_callback = callback;
    const int nb = *s++;
    for (int i = 0; i < nb; ++i) {
      at.push_back(u + s[0]);
      size.push_back(s[1]);
      s += 2;
    }
    const int nc = *s++;
    for (int i = 0; i < nc; ++i) {
      Cost* c = new Cost(i, s[0]);
      const int k = s[1];
      s += 2;
      for (int j = 0; j < k; ++j) c->add(*s++);
      costs.push_back(c);
    }
    const int nl = *s++;
    for (int i = 0; i < nl; ++i) losses.push_back(new Loss(i));
    const int nm = *s++;
    for (int i = 0; i < nm; ++i) {
      mans.push_back(new Man(i, s[0], s[1]));
      s += 2;
    }
    p = new Problem(options);
    return s;
  }
  void Play(const int* s, const double* lo, const double* hi) {
    for (int n = *s++; n > 0; --n) {
      const int op = *s++;
      if (op == 0) {
        p->AddParameterBlock(at[s[0]], s[1]);
        s += 2;
      } else if (op == 1) {
        p->AddParameterBlock(at[s[0]], s[1], s[2] < 0 ? nullptr : mans[s[2]]);
        s += 3;
      } else if (op == 2) {
        std::vector<double*> x;
        for (int j = 0; j < s[2]; ++j) x.push_back(at[s[3 + j]]);
        LossFunction* l = s[1] < 0 ? nullptr : losses[s[1]];
        rs.push_back(rs.size() % 2 == 0 ? p->AddResidualBlock(costs[s[0]], l, x.data(), s[2]) : p->AddResidualBlock(costs[s[0]], l, x));
        s += 3 + s[2];
      } else if (op == 3) {
        p->RemoveResidualBlock(rs[*s++]);
      } else if (op == 4) {
        p->RemoveParameterBlock(at[*s++]);
      } else if (op == 5) {
        p->SetParameterBlockConstant(at[*s++]);
      } else if (op == 6) {
        p->SetParameterBlockVariable(at[*s++]);
      } else if (op == 7) {
        p->SetManifold(at[s[0]], s[1] < 0 ? nullptr : mans[s[1]]);
        s += 2;
      } else if (op == 8) {
        p->SetParameterLowerBound(at[s[0]], s[1], lo[s[2]]);
        s += 3;
      } else if (op == 9) {
        p->SetParameterUpperBound(at[s[0]], s[1], hi[s[2]]);
        s += 3;
      }
    }
  }
  void Tell(int* out, double* bounds) {
    *out++ = p->NumParameterBlocks();
    *out++ = p->NumParameters();
    *out++ = p->NumResidualBlocks();
    *out++ = p->NumResiduals();
    for (int i = 0; i < static_cast<int>(at.size()); ++i) {
      const bool has = p->HasParameterBlock(at[i]);
      *out++ = has ? 1 : 0;
      if (!has) continue;
      *out++ = p->ParameterBlockSize(at[i]);
      *out++ = p->ParameterBlockTangentSize(at[i]);
      *out++ = p->IsParameterBlockConstant(at[i]) ? 1 : 0;
      const Manifold* m = p->GetManifold(at[i]);
      *out++ = m == nullptr ? -1 : static_cast<const Man*>(m)->id;
      *out++ = p->HasManifold(at[i]) ? 1 : 0;
      for (int k = 0; k < size[i]; ++k) {
        *bounds++ = p->GetParameterLowerBound(at[i], k);
        *bounds++ = p->GetParameterUpperBound(at[i], k);
      }
      std::vector<ResidualBlock*> of;
      p->GetResidualBlocksForParameterBlock(at[i], &of);
      *out++ = static_cast<int>(of.size());
      for (ResidualBlock* r : of) *out++ = Find(rs, r);
    }
    std::vector<double*> all;
    p->GetParameterBlocks(&all);
    *out++ = static_cast<int>(all.size());
    for (double* x : all) *out++ = Find(at, x);
    std::vector<ResidualBlock*> blocks;
    p->GetResidualBlocks(&blocks);
    *out++ = static_cast<int>(blocks.size());
    for (ResidualBlock* r : blocks) {
      *out++ = Find(rs, r);
      *out++ = static_cast<const Cost*>(p->GetCostFunctionForResidualBlock(r))->id;
      const LossFunction* l = p->GetLossFunctionForResidualBlock(r);
      *out++ = l == nullptr ? -1 : static_cast<const Loss*>(l)->id;
      std::vector<double*> of;
      p->GetParameterBlocksForResidualBlock(r, &of);
      *out++ = static_cast<int>(of.size());
      for (double* x : of) *out++ = Find(at, x);
    }
    const std::vector<ParameterBlock*>& ordered = p->mutable_impl()->program().parameter_blocks();
    for (int i = 0; i < static_cast<int>(ordered.size()); ++i) {
      *out++ = Find(at, ordered[i]->mutable_user_state());
      *out++ = ordered[i]->index();
    }
    const std::vector<ResidualBlock*>& list = p->mutable_impl()->program().residual_blocks();
    for (int i = 0; i < static_cast<int>(list.size()); ++i) *out++ = list[i]->index();
  }
};
// Returns what is left to be deleted by the user: costs, losses, manifolds are told apart by the analysis.
void Play(double* u, const int* o, const int* s, const double* lo, const double* hi, int* out, double* bounds) {
  ContextImpl context;
  History h;
  s = h.Begin(u, o, &context, nullptr, s);
  h.Play(s, lo, hi);
  Mark();
  h.Tell(out, bounds);
  Mark();
  delete h.p;
  Mark();
}
void Misuse(double* u, const int* o, const int* s, const double* lo, const double* hi) {
  ContextImpl context;
  History h;
  s = h.Begin(u, o, &context, nullptr, s);
  h.Play(s, lo, hi);
}
// e = what is asked for (1 cost, 2 residuals, 4 gradient, 8 Jacobian), loss functions, parameter blocks, residual blocks
int Ask(double* u, const int* o, const int* s, const double* lo, const double* hi, int watch, const int* e, double* cost, double* res, double* grad, double* dense, int* sizes, int* calls, double* seen, int nu, int* out, double* bounds) {
  ContextImpl context;
  Watch callback(u, nu, calls, seen);
  History h;
  s = h.Begin(u, o, &context, watch != 0 ? &callback : nullptr, s);
  h.Play(s, lo, hi);
  const int mask = *e++;
  Problem::EvaluateOptions eo;
  eo.apply_loss_function = *e++ != 0;
  for (int n = *e++; n > 0; --n) eo.parameter_blocks.push_back(h.at[*e++]);
  for (int n = *e++; n > 0; --n) eo.residual_blocks.push_back(h.rs[*e++]);
  std::vector<double> r, g;
  CRSMatrix j;
  double c = 0.0;
  const bool ok = h.p->Evaluate(eo, (mask & 1) != 0 ? &c : nullptr, (mask & 2) != 0 ? &r : nullptr, (mask & 4) != 0 ? &g : nullptr, (mask & 8) != 0 ? &j : nullptr);
  if (ok) {
    if ((mask & 1) != 0) cost[0] = c;
    sizes[0] = static_cast<int>(r.size());
    sizes[1] = static_cast<int>(g.size());
    for (int i = 0; i < static_cast<int>(r.size()); ++i) res[i] = r[i];
    for (int i = 0; i < static_cast<int>(g.size()); ++i) grad[i] = g[i];
    if ((mask & 8) != 0) {
      sizes[2] = j.num_rows;
      sizes[3] = j.num_cols;
      for (int i = 0; i < j.num_rows * j.num_cols; ++i) dense[i] = 0.0;
      for (int i = 0; i < j.num_rows; ++i) {
        for (int k = j.rows[i]; k < j.rows[i + 1]; ++k) dense[i * j.num_cols + j.cols[k]] += j.values[k];
      }
    }
  }
  h.Tell(out, bounds);
  return ok ? 1 : 0;
}
// One residual block, b; wanted = which Jacobians; freeze: a block made constant after an evaluation, before the values move
int AskOne(double* u, const int* o, const int* s, const double* lo, const double* hi, int watch, int b, bool apply, bool fresh, int mask, int wanted, double* cost, double* res, double** jac, int* calls, double* seen, int nu, int freeze, const double* moved) {
  ContextImpl context;
  Watch callback(u, nu, calls, seen);
  History h;
  s = h.Begin(u, o, &context, watch != 0 ? &callback : nullptr, s);
  h.Play(s, lo, hi);
  if (freeze >= 0) {
    double total = 0.0;
    h.p->Evaluate(Problem::EvaluateOptions(), &total, nullptr, nullptr, nullptr);
    h.p->SetParameterBlockConstant(h.at[freeze]);
    for (int i = 0; i < nu; ++i) u[i] = moved[i];
  }
  double* ptrs[4];
  for (int i = 0; i < 4; ++i) ptrs[i] = (wanted & (1 << i)) != 0 ? jac[i] : nullptr;
  double* c = (mask & 1) != 0 ? cost : nullptr;
  double* r = (mask & 2) != 0 ? res : nullptr;
  double** j = (mask & 4) != 0 ? ptrs : nullptr;
  return (fresh ? h.p->EvaluateResidualBlock(h.rs[b], apply, c, r, j) : h.p->EvaluateResidualBlockAssumingParametersUnchanged(h.rs[b], apply, c, r, j)) ? 1 : 0;
}
}  // namespace w
