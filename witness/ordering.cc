// Never compiled to code: elimination orderings and the order of the blocks of a program.
#include <map>
#include <set>
#include <unordered_set>
#include "evaluator.cc"
#include "ceres/graph.h"
#include "ceres/graph_algorithms.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/reorder_program.h"
#include "ceres/triplet_sparse_matrix.h"

namespace w {
int Place(const World& w, const ParameterBlock* b) {
  for (int i = 0; i < static_cast<int>(w.blocks.size()); ++i) {
    if (w.blocks[i] == b) return i;
  }
  return -1;
}
int Schur(double* u, const int* s, bool stable, int* out) {
  World w(u, s);
  std::vector<ParameterBlock*> ordering;
  ordering.push_back(w.blocks[0]);
  const int k = stable ? ComputeStableSchurOrdering(w.p, &ordering) : ComputeSchurOrdering(w.p, &ordering);
  *out++ = static_cast<int>(ordering.size());
  for (ParameterBlock* b : ordering) *out++ = Place(w, b);
  return k;
}
void Recursive(double* u, const int* s, int* out) {
  World w(u, s);
  ParameterBlockOrdering ordering;
  ordering.AddElementToGroup(u, 7);
  ComputeRecursiveIndependentSetOrdering(w.p, &ordering);
  *out++ = ordering.NumElements();
  *out++ = ordering.NumGroups();
  for (ParameterBlock* b : w.blocks) *out++ = ordering.GroupId(b->mutable_user_state());
  std::vector<int> sizes(3, 5);
  OrderingToGroupSizes(&ordering, &sizes);
  *out++ = static_cast<int>(sizes.size());
  for (int n : sizes) *out++ = n;
}
void Group(double* u, const World& w, const int* g, int stranger, ParameterBlockOrdering* ordering, ProblemImpl::ParameterMap* map) {
  for (int i = 0; i < static_cast<int>(w.blocks.size()); ++i) {
    double* x = w.blocks[i]->mutable_user_state();
    (*map)[x] = w.blocks[i];
    if (g[i] >= 0) ordering->AddElementToGroup(x, g[i]);
  }
  if (stranger >= 0) ordering->AddElementToGroup(u + 40, stranger);
}
int Order(const World& w, int* out) {
  int* at = out;
  *at++ = w.p.NumParameterBlocks();
  for (ParameterBlock* b : w.p.parameter_blocks()) {
    *at++ = Place(w, b);
    *at++ = b->index();
    *at++ = b->state_offset();
    *at++ = b->delta_offset();
  }
  *at++ = w.p.NumResidualBlocks();
  for (ResidualBlock* r : w.p.residual_blocks()) *at++ = r->index();
  return static_cast<int>(at - out);
}
bool Apply(double* u, const int* s, const int* g, int stranger, int* out) {
  World w(u, s);
  ParameterBlockOrdering ordering;
  ProblemImpl::ParameterMap map;
  Group(u, w, g, stranger, &ordering, &map);
  std::string error;
  const bool ok = ApplyOrdering(map, ordering, &w.p, &error);
  Order(w, out);
  return ok;
}
bool Lexicographic(double* u, const int* s, int k, int* out) {
  World w(u, s);
  std::string error;
  const bool ok = LexicographicallyOrderResidualBlocks(k, &w.p, &error);
  Order(w, out);
  return ok;
}
bool Reorder(double* u, const int* s, int type, int lib, const int* g, int stranger, int* out) {
  World w(u, s);
  ParameterBlockOrdering ordering;
  ProblemImpl::ParameterMap map;
  Group(u, w, g, stranger, &ordering, &map);
  std::string error;
  const bool ok = ReorderProgramForSchurTypeLinearSolver(static_cast<LinearSolverType>(type), static_cast<SparseLinearAlgebraLibraryType>(lib), AMD, map, &ordering, &w.p, &error);
  out += Order(w, out);
  for (ParameterBlock* b : w.blocks) *out++ = ordering.GroupId(b->mutable_user_state());
  *out++ = ordering.NumElements();
  return ok;
}
int Partition(double* u, const int* s, const int* bottom, int* out) {
  World w(u, s);
  std::unordered_set<ResidualBlockId> set;
  for (ResidualBlock* r : w.p.residual_blocks()) {
    if (bottom[r->index()] != 0) set.insert(r);
  }
  const int k = ReorderResidualBlocksByPartition(set, &w.p);
  Order(w, out);
  return k;
}
bool Independent(double* u, const int* s, const int* in) {
  World w(u, s);
  std::set<double*> set;
  for (int i = 0; i < static_cast<int>(w.blocks.size()); ++i) {
    if (in[i] != 0) set.insert(w.blocks[i]->mutable_user_state());
  }
  return w.p.IsParameterBlockSetIndependent(set);
}
void Sparsity(double* u, const int* s, int start, int* out) {
  World w(u, s);
  std::unique_ptr<TripletSparseMatrix> m = w.p.CreateJacobianBlockSparsityTranspose(start);
  *out++ = m->num_rows();
  *out++ = m->num_cols();
  *out++ = m->num_nonzeros();
  for (int i = 0; i < m->num_nonzeros(); ++i) {
    *out++ = m->rows()[i];
    *out++ = m->cols()[i];
  }
}
// 0 add element to group, 1 remove, 2 remove several, 3 reverse, 4 clear
void Groups(const int* ops, int ne, int ng, int* out) {
  OrderedGroups<int> o;
  for (int n = *ops++; n > 0; --n) {
    const int op = *ops++;
    if (op == 0) {
      *out++ = o.AddElementToGroup(ops[0], ops[1]) ? 1 : 0;
      ops += 2;
    } else if (op == 1) {
      *out++ = o.Remove(*ops++) ? 1 : 0;
    } else if (op == 2) {
      std::vector<int> v;
      for (int k = *ops++; k > 0; --k) v.push_back(*ops++);
      *out++ = o.Remove(v);
    } else if (op == 3) {
      o.Reverse();
    } else {
      o.Clear();
    }
  }
  *out++ = o.NumElements();
  *out++ = o.NumGroups();
  for (int e = 0; e < ne; ++e) {
    *out++ = o.IsMember(e) ? 1 : 0;
    *out++ = o.GroupId(e);
  }
  for (int g = 0; g < ng; ++g) *out++ = o.GroupSize(g);
  if (o.NumGroups() > 0) *out++ = o.MinNonZeroGroup();
  for (const auto& g : o.group_to_elements()) {
    *out++ = g.first;
    for (int e : g.second) *out++ = e;
  }
}
int Forest(int n, const int* edges, int ne, const double* weights, int* out) {
  WeightedGraph<int> g;
  for (int i = 0; i < n; ++i) g.AddVertex(i);
  for (int i = 0; i < ne; ++i) g.AddEdge(edges[2 * i], edges[2 * i + 1], weights[i]);
  std::unique_ptr<WeightedGraph<int>> f = Degree2MaximumSpanningForest(g);
  int* at = out;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) *at++ = f->Neighbors(i).count(j) > 0 ? 1 : 0;
  }
  return static_cast<int>(f->vertices().size());
}
}  // namespace w
