// Parallel loops, the thread pool and its queue, driven with uninterpreted bodies.
#include <functional>
#include <memory>
#include <thread>
#include <tuple>
#include <vector>
#include "ceres/concurrent_queue.h"
#include "ceres/context_impl.h"
#include "ceres/parallel_for.h"
#include "ceres/partition_range_for_parallel_for.h"
#include "ceres/thread_pool.h"

namespace w {
using namespace ceres::internal;

void Body(int loop, int thread, int from, int to);
void Returned(int loop);
void Task(int i);
void Result(int i, bool ok, int value);

// kind: the signature of the function; parts: partition, or cumulative costs of the indices
void Loop(ContextImpl* c, int loop, int kind, int start, int end, int threads, int min_block, int how, const int* parts, int n) {
  auto run = [&](auto&& f) {
    if (how == 0) {
      ParallelFor(c, start, end, threads, f, min_block);
    } else if (how == 1) {
      ParallelFor(c, start, end, threads, f);
    } else if (how == 2) {
      std::vector<int> p(n);
      for (int i = 0; i < n; ++i) p[i] = parts[i];
      ParallelFor(c, start, end, threads, f, p);
    } else {
      ParallelFor(c, start, end, threads, f, parts, [](const int& x) { return x; });
    }
    Returned(loop);
  };
  if (kind == 0) {
    run([loop](int i) { Body(loop, -1, i, i + 1); });
  } else if (kind == 1) {
    run([loop](int t, int i) { Body(loop, t, i, i + 1); });
  } else if (kind == 2) {
    run([loop](std::tuple<int, int> r) { Body(loop, -1, std::get<0>(r), std::get<1>(r)); });
  } else {
    run([loop](int t, std::tuple<int, int> r) {
      auto [from, to] = r;
      Body(loop, t, from, to);
    });
  }
}
void One(int pool, int kind, int start, int end, int threads, int min_block, int how, const int* parts, int n) {
  ContextImpl c;
  c.EnsureMinimumThreads(pool);
  Loop(&c, 0, kind, start, end, threads, min_block, how, parts, n);
  c.thread_pool.~ThreadPool();
}
void Serial(int kind, int start, int end, int threads, int min_block) {
  Loop(nullptr, 0, kind, start, end, threads, min_block, 0, nullptr, 0);
}
void Twice(int pool, int end, int threads, int end2, int threads2) {
  ContextImpl c;
  c.EnsureMinimumThreads(pool);
  Loop(&c, 0, 1, 0, end, threads, 1, 0, nullptr, 0);
  Loop(&c, 1, 1, 0, end2, threads2, 1, 0, nullptr, 0);
  c.thread_pool.~ThreadPool();
}
void Nested(int pool, int outer, int threads, int inner, int threads2) {
  ContextImpl c;
  c.EnsureMinimumThreads(pool);
  ParallelFor(&c, 0, outer, threads, [&](int i) { Loop(&c, i, 1, 0, inner, threads2, 1, 0, nullptr, 0); });
  Returned(100);
  c.thread_pool.~ThreadPool();
}
void Shared(int pool, int end, int threads, int end2, int threads2) {
  ContextImpl c;
  c.EnsureMinimumThreads(pool);
  {
    std::thread other([&]() { Loop(&c, 1, 1, 0, end2, threads2, 1, 0, nullptr, 0); });
    Loop(&c, 0, 1, 0, end, threads, 1, 0, nullptr, 0);
    other.join();
  }
  c.thread_pool.~ThreadPool();
}
// before: tasks added before the pool has threads; grow: size it is resized to half way
void Pool(int size, int before, int grow, int after) {
  ThreadPool p(before < 0 ? size : 0);
  int k = 0;
  for (int i = 0; i < before; ++i, ++k) p.AddTask([k]() { Task(k); });
  p.Resize(size);
  Result(0, true, p.Size());
  for (int i = 0; i < after; ++i, ++k) p.AddTask([k]() { Task(k); });
  if (grow) {
    p.Resize(grow);
    Result(1, true, p.Size());
    for (int i = 0; i < after; ++i, ++k) p.AddTask([k]() { Task(k); });
  }
  p.~ThreadPool();
  Result(2, true, 0);
}
// ops: n >= 0 push n, -1 pop, -2 wait, -3 stop, -4 enable
void Queue(const int* ops, int n) {
  ConcurrentQueue<int> q;
  for (int i = 0; i < n; ++i) {
    int v = -9;
    if (ops[i] >= 0) {
      q.Push(ops[i]);
    } else if (ops[i] == -1) {
      bool ok = q.Pop(&v);
      Result(i, ok, v);
    } else if (ops[i] == -2) {
      bool ok = q.Wait(&v);
      Result(i, ok, v);
    } else if (ops[i] == -3) {
      q.StopWaiters();
    } else {
      q.EnableWaiters();
    }
  }
}
// producers push, consumers wait until stopped
void Exchange(int producers, int each, int consumers) {
  ConcurrentQueue<int> q;
  std::vector<std::thread> ps, cs;
  for (int i = 0; i < consumers; ++i) {
    cs.emplace_back([&q]() {
      int v = -9;
      while (q.Wait(&v)) Task(v);
    });
  }
  for (int i = 0; i < producers; ++i) {
    ps.emplace_back([&q, i, each]() {
      for (int k = 0; k < each; ++k) q.Push(i * each + k);
    });
  }
  for (auto& t : ps) t.join();
  q.StopWaiters();
  for (auto& t : cs) t.join();
  Result(0, true, 0);
}
// threads that look without waiting
void Scramble(int producers, int each, int consumers, int tries) {
  ConcurrentQueue<int> q;
  std::vector<std::thread> ts;
  for (int i = 0; i < consumers; ++i) {
    ts.emplace_back([&q, tries]() {
      int v = -9;
      for (int k = 0; k < tries; ++k)
        if (q.Pop(&v)) Task(v);
    });
  }
  for (int i = 0; i < producers; ++i) {
    ts.emplace_back([&q, i, each]() {
      for (int k = 0; k < each; ++k) q.Push(i * each + k);
    });
  }
  for (auto& t : ts) t.join();
  int v = -9;
  while (q.Pop(&v)) Task(v);
  Result(0, true, 0);
}
// several threads make sure of their threads in one pool
void Grow(int a, int b) {
  ContextImpl c;
  std::thread t([&]() {
    c.EnsureMinimumThreads(a);
    Result(0, true, c.thread_pool.Size());
    c.thread_pool.AddTask([]() { Task(0); });
  });
  c.EnsureMinimumThreads(b);
  Result(1, true, c.thread_pool.Size());
  c.thread_pool.AddTask([]() { Task(1); });
  t.join();
  Result(2, true, c.thread_pool.Size());
  c.thread_pool.~ThreadPool();
}
int Partition(int start, int end, int max, const int* costs, int* out) {
  std::vector<int> p = PartitionRangeForParallelFor(start, end, max, costs, [](const int& x) { return x; });
  for (int i = 0; i < p.size(); ++i) out[i] = p[i];
  return p.size();
}
bool Feasible(int start, int end, int max, int cost, int offset, const int* costs, int* out, int* n) {
  std::vector<int> p = {7, 8};
  bool ok = MaxPartitionCostIsFeasible(start, end, max, cost, offset, costs, [](const int& x) { return x; }, &p);
  *n = p.size();
  for (int i = 0; i < p.size(); ++i) out[i] = p[i];
  return ok;
}
}  // namespace w
