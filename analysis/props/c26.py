"""C26: parallel loops, the thread pool and its queue."""
import random
import sys
from alg import *
import coop
import facts
from check import Check
RULE = ("abstract execution of ParallelFor, ParallelInvoke, ThreadPool and ConcurrentQueue with an uninterpreted body under many schedules of their threads (hand-over at every lock, condition, atomic and body): every index in exactly one call, none after the loop "
        "returned, thread ids in range and never shared, no deadlock, no two unordered accesses of one object; partitions against exhaustive search")
FILES = ("thread_pool.cc", "parallel_invoke.cc", "context_impl.cc")
INT_MAX = 2 ** 31 - 1


def policies(n, seed):
    """Schedulers: at random, first or last thread first, turns, and random priorities that change a few times."""
    out = [("the first thread first", lambda: lambda r, cur: r[0]), ("the last thread first", lambda: lambda r, cur: r[-1]),
           ("no thread interrupted", lambda: lambda r, cur: cur if cur in r else r[0])]

    def turns():
        k = [0]

        def f(r, cur):
            k[0] += 1
            return r[k[0] % len(r)]
        return f
    out.append(("in turns", turns))
    for i in range(n):
        def rnd(i=i):
            q = random.Random("%s %d" % (seed, i))
            return lambda r, cur: q.choice(r)

        def prio(i=i):
            q = random.Random("%s p%d" % (seed, i))
            p, k = {}, [0]
            change = {q.randrange(80) for _ in range(3)}

            def f(r, cur):
                k[0] += 1
                for t in r:
                    p.setdefault(t, q.random())
                if k[0] in change and cur in p:
                    p[cur] = -q.random()
                return max(r, key=lambda t: p[t])
            return f
        out.append(("schedule %d" % i, rnd if i % 2 else prio))
    return out


class Wrong(Exception):
    pass


def plain(v):
    return v is TRUE if v is TRUE or v is FALSE else int(tm.cval(v))


def run():
    sys.setrecursionlimit(200000)
    C = Check("C26", RULE, floor=60)
    F = facts.load([facts.witness("parallel.cc")] + [facts.REPO + "/internal/ceres/" + s for s in FILES])
    W = {f.n: f for f in F.fns.values() if f.q.startswith("w::")}
    n_sched = 60 if THOROUGH else 14

    def interp(hw):
        ip = Interp(F, 4000000)
        ip.intlog = []
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(hw)
        return ip

    def sane(ip):
        for g, t, bits, where in ip.intlog:
            if g is not FALSE and tm.isc(t) and not -2 ** bits <= tm.cval(t) < 2 ** bits:
                raise Wrong("the value %s at %s does not fit" % (fmt(tm.cval(t)), where))
        if any(a is not FALSE for a in ip.aborts):
            raise Wrong("a CHECK fails")

    def schedule(fn, args, make, judge, hw=4):
        """One execution; the log holds calls of the uninterpreted functions in order."""
        ip = interp(hw)
        co = coop.Coop(ip, make())
        log, active = [], []

        def hook(nm):
            def h(ip, recv, a, n):
                vals = tuple(plain(ip.load(x) if isinstance(x, (Cell, LVal)) else x) for x in a)
                me = (nm, vals)
                if nm == "Body":
                    for o, ov in active:
                        if ov[0] == vals[0] and vals[1] >= 0 and ov[1] == vals[1]:
                            raise Wrong("two threads use thread id %d at once" % vals[1])
                    active.append(me)
                    log.append(("busy", vals[0], sum(1 for o, ov in active if ov[0] == vals[0])))
                    co.point()
                    active.remove(me)
                else:
                    co.point()
                log.append(me)
            return h
        for k in ("Body", "Returned", "Task", "Result"):
            ip.hooks["w::" + k] = hook(k)
        try:
            co.run(lambda: ip.call(W[fn], args()))
        except OutOfRange as e:
            raise Wrong(e.msg)
        left = [t for t in co.ths[1:] if not t.done]
        if left:
            raise Wrong("%d threads are still running at the end" % len(left))
        if co.races:
            raise Wrong(co.races[0])
        sane(ip)
        judge(log)
        C.count("thread switches", co.switches)

    def loop_ok(log, loop, start, end, threads, with_id, least=1):
        seen = {}
        done = False
        for nm, v in [q for q in log if q[0] != "busy"]:
            if nm == "Returned" and v[0] == loop:
                if done:
                    raise Wrong("the loop returns twice")
                done = True
                miss = [i for i in range(start, end) if i not in seen]
                if miss:
                    raise Wrong("the loop returned before index %d was done" % miss[0])
            elif nm == "Body" and v[0] == loop:
                _, t, a, b = v
                if done:
                    raise Wrong("the function is called for [%d,%d) after the loop returned" % (a, b))
                if a < start or b > end or a >= b:
                    raise Wrong("the function is called for [%d,%d), the loop is over [%d,%d)" % (a, b, start, end))
                for i in range(a, b):
                    if i in seen:
                        raise Wrong("index %d is done twice" % i)
                    seen[i] = t
                if with_id and not 0 <= t < threads:
                    raise Wrong("thread id %d, of %d threads" % (t, threads))
                if b - a < min(least, end - start):
                    raise Wrong("a block of %d indices, at least %d are asked for" % (b - a, least))
        if not done:
            raise Wrong("the loop does not return")
        for q in log:
            if q[0] == "busy" and q[1] == loop and q[2] > threads:
                raise Wrong("%d calls at once, with %d threads" % (q[2], threads))

    def obligation(key, loc, fn, args, judge, hw=4, n=n_sched):
        def go():
            for nm, make in policies(n, key):
                try:
                    schedule(fn, args, make, judge, hw)
                except Wrong as e:
                    C.violation(key, loc, "%s (%s)" % (e, nm))
                    return
                C.count("schedules")
            C.passed(key)
        guarded(C, key, go)
    L = lambda cls, name: loc_of(F, cls, name)
    pf = loc_of(F, "ceres::internal", "ParallelInvoke")
    KIND = ["f(i)", "f(thread, i)", "f(range)", "f(thread, range)"]
    r = rng("c26")
    arr = lambda v: array("p", max(1, len(v)), [const(x) for x in v] or [ZERO])

    # loops ------------------------------------------------------------------
    grid = [(1, 0, 5, 2, 1), (2, 0, 9, 3, 1), (3, 3, 11, 4, 1), (2, -2, 5, 2, 1), (1, 0, 30, 2, 1), (3, 5, 40, 3, 1), (2, 0, 20, 3, 3), (2, 0, 23, 2, 5), (2, 0, 24, 2, 12), (2, 1, 24, 2, 12), (0, 0, 4, 2, 1), (1, 0, 2, 8, 1), (3, 0, 17, 4, 2), (1, 7, 8, 3, 1), (1, 0, 0, 3, 1), (1, 4, 2, 3, 1), (2, 0, 6, 1, 1)]
    for k, (pool, a, b, t, mb) in enumerate(grid):
        for kind in range(4) if k in (1, 2, 6) else (k % 4, (k + 2) % 4):
            how = 0 if mb > 1 or kind % 2 else 1
            obligation("%s over [%d,%d), %d threads, blocks of at least %d, pool of %d" % (KIND[kind], a, b, t, mb, pool), pf, "One",
                       lambda a=a, b=b, t=t, mb=mb, kind=kind, how=how, pool=pool: [const(x) for x in (pool, kind, a, b, t, mb, how)] + [NULL, ZERO],
                       lambda log, a=a, b=b, t=t, mb=mb, kind=kind: loop_ok(log, 0, a, b, t, kind % 2 == 1, mb if kind > 1 else 1))
    for kind in range(4):
        for a, b, t, mb in ((0, 5, 1, 1), (2, 5, 4, 2), (0, 0, 4, 1), (3, 4, 1, 9)):
            obligation("%s over [%d,%d) without a context, %d threads, blocks of at least %d" % (KIND[kind], a, b, t, mb), pf, "Serial", lambda a=a, b=b, t=t, mb=mb, kind=kind: [const(x) for x in (kind, a, b, t, mb)],
                       lambda log, a=a, b=b, t=t, kind=kind: loop_ok(log, 0, a, b, t, kind % 2 == 1), n=0)
    # with partitions, and with cumulative costs
    parts = [(0, [0, 1, 4, 6, 7, 12]), (0, [0, 9]), (2, [2, 3, 4, 5, 6, 7, 8, 9, 20, 21, 22, 23, 24, 25]), (0, [0, 3, 5]), (1, [1, 2, 3]), (0, [0] + sorted(r.r.sample(range(1, 40), 17)) + [40])]
    for a, p in parts:
        for kind in (1, 3) if len(p) > 9 else (2, 3):
            for t in (1, 2, 3):
                obligation("%s over %s, %d threads" % (KIND[kind], p, t), pf, "One", lambda a=a, p=p, t=t, kind=kind: [const(x) for x in (3, kind, a, p[-1], t, 1, 2)] + [arr(p), const(len(p))],
                           lambda log, a=a, p=p, t=t, kind=kind: loop_ok(log, 0, a, p[-1], t, kind % 2 == 1), n=4)
    costs = [[1, 1, 5, 3, 1, 4], [0, 0, 0, 0, 0], [0, 9, 0, 0, 1, 0, 0], [7, 0, 0, 0, 0, 7], [1] * 11, [r.r.randint(0, 9) for _ in range(25)], [700000000] * 3 + [1], [INT_MAX - 4, 1, 1, 1, 1], [1, 1, 1, 1, INT_MAX - 4]]

    def cumul(c):
        o, s = [], 0
        for x in c:
            s += x
            o.append(s)
        return o
    for c in costs:
        for a in (0, 2):
            for kind in (1, 2):
                for t in (2, 3):
                    cum = cumul(c)
                    obligation("%s over [%d,%d) of costs %s, %d threads" % (KIND[kind], a, len(c), c, t), pf, "One", lambda a=a, c=c, cum=cum, t=t, kind=kind: [const(x) for x in (2, kind, a, len(c), t, 1, 3)] + [arr(cum), const(len(cum))],
                               lambda log, a=a, c=c, t=t, kind=kind: loop_ok(log, 0, a, len(c), t, kind % 2 == 1), n=2)

    # several loops ------------------------------------------------------------
    for pool, e1, t1, e2, t2 in ((1, 4, 2, 5, 3), (2, 6, 3, 4, 2), (3, 3, 8, 9, 2)):
        def both(log, e1=e1, t1=t1, e2=e2, t2=t2):
            loop_ok(log, 0, 0, e1, t1, True)
            loop_ok(log, 1, 0, e2, t2, True)
        for fn, nm in (("Twice", "after each other"), ("Shared", "at the same time")):
            obligation("loops over %d and %d %s, %d and %d threads, pool of %d" % (e1, e2, nm, t1, t2, pool), pf, fn, lambda pool=pool, e1=e1, t1=t1, e2=e2, t2=t2: [const(x) for x in (pool, e1, t1, e2, t2)], both, n=2 * n_sched)
    for pool, o, t, i, t2 in ((1, 2, 2, 2, 2), (1, 3, 3, 3, 2), (2, 4, 3, 3, 3), (3, 2, 4, 4, 2)):
        def nest(log, o=o, i=i, t2=t2):
            for k in range(o):
                loop_ok(log, k, 0, i, t2, True)
            if log[-1][0] != "Returned" or log[-1][1] != (100,):
                raise Wrong("the outer loop does not return last")
        obligation("a loop over %d inside a loop over %d, %d and %d threads, pool of %d" % (i, o, t2, t, pool), pf, "Nested", lambda pool=pool, o=o, t=t, i=i, t2=t2: [const(x) for x in (pool, o, t, i, t2)], nest, n=2 * n_sched)

    # the pool -----------------------------------------------------------------
    for size, before, grow, after, hw in ((2, 3, 3, 2, 4), (1, 2, 0, 2, 4), (3, -1, 0, 4, 2), (2, -1, 1, 2, 4), (1, 0, 4, 1, 0), (6, 1, 0, 3, 4), (1, 1, 9, 1, 3), (0, 2, 0, 1, 4), (0, -1, 2, 2, 4), (2, -1, 5, 3, 8), (1, 0, 0, 0, 4), (3, 2, 2, 1, 1)):
        cap = lambda n, hw=hw: min(n, hw or INT_MAX)
        now = cap(size)
        then = max(now, cap(grow))
        total = max(before, 0) + after + (after if grow else 0)

        def judge(log, size=size, before=before, grow=grow, after=after, now=now, then=then, total=total):
            done = []
            for nm, v in log:
                if nm == "Task":
                    if v[0] in done:
                        raise Wrong("task %d is run twice" % v[0])
                    done.append(v[0])
                elif nm == "Result" and v[0] < 2 and v[2] != (now, then)[v[0]]:
                    raise Wrong("size is %d, not %d" % (v[2], (now, then)[v[0]]))
            if log[-1][0] != "Result" or log[-1][1][0] != 2:
                raise Wrong("a task is run after the pool is gone")
            want = total if then else 0
            if len(done) != want:
                raise Wrong("%d of %d tasks are run before the pool is gone" % (len(done), want))
        obligation("a pool of %d with %d tasks waiting, resized to %d, %d tasks each time, hardware for %d" % (size, before, grow, after, hw), L("ceres::internal::ThreadPool", "Resize"), "Pool",
                   lambda size=size, before=before, grow=grow, after=after: [const(x) for x in (size, before, grow, after)], judge, hw=hw)

    # the queue ------------------------------------------------------------------
    seqs = [[-1], [5, -1, -1], [1, 2, 3, -2, -1, -2, -1], [1, -3, 2, -2, -2, -2, -1], [-3, -2, -1, 4, -2, -4, 5, -2, 6, -1], [-3, -4, 7, 8, -2, -1, -1, -3, -2], [3, 3, -3, -4, 3, -1, -2, -2]]
    for _ in range(30 if THOROUGH else 10):
        s, q, w = [], 0, True
        for _ in range(r.r.randint(4, 14)):
            o = r.r.choice([-1, -2, -2, -3, -4, 1, 1, 1])
            if o == -2 and w and not q:
                continue
            o = r.r.randint(0, 9) if o == 1 else o
            q = q + 1 if o >= 0 else max(0, q - 1) if o in (-1, -2) else q
            w = {-3: False, -4: True}.get(o, w)
            s.append(o)
        seqs.append(s)
    for s in seqs:
        def judge(log, s=s):
            q, want = [], []
            for i, o in enumerate(s):
                if o >= 0:
                    q.append(o)
                elif o in (-1, -2):
                    want.append(("Result", (i, bool(q), q.pop(0) if q else -9)))
            got = [x for x in log if x[0] == "Result"]
            if got != want:
                k = [a == b for a, b in zip(got, want)].index(False) if len(got) == len(want) else 0
                raise Wrong("operation %d gives %s, not %s" % (want[k][1][0], got[k][1][1:] if got else None, want[k][1][1:]))
        obligation("queue: %s" % " ".join({-1: "pop", -2: "wait", -3: "stop", -4: "enable"}.get(o, "push %d" % o) for o in s), L("ceres::internal::ConcurrentQueue", "Wait"), "Queue", lambda s=s: [arr(s), const(len(s))], judge, n=0)
    for p, e, c in ((1, 3, 1), (2, 2, 1), (1, 4, 2), (2, 2, 3), (3, 1, 2), (1, 0, 2)):
        def judge(log, p=p, e=e, c=c):
            t = [v[0] for nm, v in log if nm == "Task"]
            if sorted(t) != list(range(p * e)):
                raise Wrong("%s are taken out, 0 to %d were put in" % (t, p * e - 1))
            if c == 1 and any(t.index(i * e + k) > t.index(i * e + k + 1) for i in range(p) for k in range(e - 1)):
                raise Wrong("taken out in the order %s" % t)
            if log[-1][0] != "Result":
                raise Wrong("a task is taken out after the end")
        obligation("queue: %d threads put in %d each, %d take out" % (p, e, c), L("ceres::internal::ConcurrentQueue", "Wait"), "Exchange", lambda p=p, e=e, c=c: [const(x) for x in (p, e, c)], judge, n=2 * n_sched)

    for p, e, c, n in ((1, 3, 1, 4), (1, 3, 2, 3), (2, 2, 2, 2)):
        def judge(log, p=p, e=e):
            t = [v[0] for nm, v in log if nm == "Task"]
            if sorted(t) != list(range(p * e)):
                raise Wrong("%s are taken out, 0 to %d were put in" % (t, p * e - 1))
        obligation("queue: %d threads put in %d each, %d look %d times" % (p, e, c, n), L("ceres::internal::ConcurrentQueue", "Pop"), "Scramble", lambda p=p, e=e, c=c, n=n: [const(x) for x in (p, e, c, n)], judge, n=2 * n_sched)
    for a, b, hw in ((2, 3, 4), (3, 1, 4), (2, 2, 4), (3, 4, 2)):
        def judge(log, a=a, b=b, hw=hw):
            t = sorted(v[0] for nm, v in log if nm == "Task")
            if t != [0, 1]:
                raise Wrong("tasks %s are run, not 0 and 1" % t)
            top = min(max(a, b), hw)
            for nm, v in log:
                if nm == "Result" and (v[2] != top if v[0] == 2 else not min((a, b)[v[0]], hw) <= v[2] <= top):
                    raise Wrong("the pool has %d threads, asked for are %d and %d of at most %d" % (v[2], a, b, hw))
        obligation("two threads ask for a pool of %d and %d at the same time, hardware for %d" % (a, b, hw), L("ceres::internal::ThreadPool", "Resize"), "Grow", lambda a=a, b=b: [const(a), const(b)], judge, hw=hw, n=2 * n_sched)

    # partitions -----------------------------------------------------------------
    def best(c, m):
        """the smallest possible largest cost of at most m contiguous parts"""
        inf = float("inf")
        d = [0] + [inf] * len(c)
        for _ in range(m):
            d = [min([d[i]] + [max(d[j], sum(c[j:i])) for j in range(i)]) for i in range(len(c) + 1)]
        return d[-1]

    def called(key, loc, fn, args, judge):
        def go():
            ip = interp(4)
            try:
                judge(ip, plain(ip.call(W[fn], args)))
                sane(ip)
            except OutOfRange as e:
                C.violation(key, loc, e.msg)
                return
            except Wrong as e:
                C.violation(key, loc, str(e))
                return
            C.passed(key)
        guarded(C, key, go)

    def valid(p, a, b, c, m, limit):
        if p[0] != a or p[-1] != b or any(x >= y for x, y in zip(p, p[1:])):
            raise Wrong("the partition of [%d,%d) is %s" % (a, b, p))
        if len(p) - 1 > m:
            raise Wrong("%d parts, %d are allowed" % (len(p) - 1, m))
        worst = max(sum(c[x:y]) for x, y in zip(p, p[1:]))
        if worst > limit:
            raise Wrong("the largest cost of %s is %d, it can be %d" % (p, worst, limit))
    cs = costs + [[3], [0], [2, 2], [5, 1], [1, 5], [9, 1, 1, 1, 9], [0, 0, 4], [4, 0, 0], [INT_MAX], [INT_MAX - 1, 1]] + [[r.r.choice([0, 1, 2, 3, 10]) for _ in range(r.r.randint(2, 14))] for _ in range(40 if THOROUGH else 12)]
    for c in cs:
        for a, b in {(0, len(c)), (len(c) // 2, len(c)), (0, (len(c) + 1) // 2)}:
            if a >= b:
                continue
            for m in (1, 2, 3, 8):
                cum, out = cumul(c), array("out", 40, "uninit")

                def judge(ip, n, a=a, b=b, c=c, m=m, out=out):
                    valid([plain(out.reg.cells[i].v) for i in range(n)], a, b, c, m, best(c[a:b], m))
                called("partition of [%d,%d) of costs %s into %d" % (a, b, c, m), loc_of(F, "ceres::internal", "PartitionRangeForParallelFor"), "Partition", [const(a), const(b), const(m), arr(cum), out], judge)
                opt = best(c[a:b], m)
                for lim in {opt - 1, opt, opt + 1, sum(c[a:b])} if len(c) < 8 and max(c) < 1000 else {opt - 1, opt}:
                    if lim < 0:
                        continue
                    out, n = array("out", 40, "uninit"), array("n", 1)

                    def judge(ip, ok, a=a, b=b, c=c, m=m, out=out, n=n, lim=lim, opt=opt):
                        if ok != (lim >= opt):
                            raise Wrong("parts of cost %d are found to be %spossible" % (lim, "" if ok else "im"))
                        if ok:
                            valid([plain(out.reg.cells[i].v) for i in range(plain(n.reg.cells[0].v))], a, b, c, m, lim)
                    called("parts of cost at most %d of [%d,%d) of costs %s, at most %d" % (lim, a, b, c, m), loc_of(F, "ceres::internal", "MaxPartitionCostIsFeasible"), "Feasible",
                           [const(a), const(b), const(m), const(lim), const(cumul(c)[a - 1] if a else 0), arr(cumul(c)), out, n], judge)
    C.assume = ["sequentially consistent atomics, fair conditions without spurious wake-ups", "schedules are sampled: the listed orders of threads plus pseudo-random ones"]
    return C
