"""C16: trust region step evaluator."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf
RULE = ("value numbering of TrustRegionStepEvaluator over every accept/reject sequence of the enumerated length with symbolic costs and model changes: each StepQuality term == the better of the decrease ratios against the current and the reference iterate, "
        "reference iterates maintained as in Conn, Gould & Toint, Algorithm 10.1.2")
MAX = M(2) ** 1024 - M(2) ** 971


def model(initial, maxnm, costs, models, acc):
    mn = cur = ref = cand = initial
    aref = acand = M(0)
    num, out = 0, []
    for c, m, a in zip(costs, models, acc):
        out.append(-MAX if c >= MAX else max((cur - c) / m, (ref - c) / (aref + m)))
        if a:
            cur = c
            acand += m
            aref += m
            if c < mn:
                mn, num, cand, acand = c, 0, c, M(0)
            else:
                num += 1
                if c > cand:
                    cand, acand = c, M(0)
            if num == maxnm:
                ref, aref = cand, acand
    return out


def run():
    C = Check("C16", RULE, floor=30)
    F = facts.load([facts.witness("strategy.cc")] + [os.path.join(facts.REPO, "internal/ceres/trust_region_step_evaluator.cc")])
    r = rng("c16")
    P = "ceres::internal::TrustRegionStepEvaluator"
    n = 7 if THOROUGH else 6
    N = NPTS * 3
    for maxnm in range(5):
        for acc in itertools.product((1, 0), repeat=n - 1):
            key = "StepQuality, at most %d nonmonotonic steps, accepted %s" % (maxnm, "".join(map(str, acc)))

            def go(maxnm=maxnm, acc=acc, key=key):
                ip = Interp(F)
                out = array("out", n, "uninit")
                ip.call(witness_fn(F, "w::", "Quality"), [tm.sym("c"), const(maxnm), array("c", n), array("m", n), Ptr(Region([Cell(const(v)) for v in acc + (0,)], "acc")), const(n), out])
                for t in range(N):
                    p = {"c": mp(r.num(1, 9))}
                    small = t % 2
                    for i in range(n):
                        p["c%d" % i] = mp(r.num(0, 9)) if not small else M(int(mp(r.num(0, 4))))   # integer costs: ties
                        p["m%d" % i] = mp(r.num(1, 30)) / 10
                    if t % 4 == 3:
                        i = t // 4 % n
                        if i >= len(acc) or not acc[i]:
                            p["c%d" % i] = MAX if t % 8 == 3 else M("inf")
                    if small:
                        p["c"] = M(int(p["c"]) % 5)
                    want = model(p["c"], maxnm, [p["c%d" % i] for i in range(n)], [p["m%d" % i] for i in range(n)], acc + (0,))
                    e = tm.Env(p)
                    for i in range(n):
                        got = e.ev(out.reg.cells[i].v)
                        if not tm.close(got, want[i]):
                            C.violation(key, loc_of(F, P, "StepQuality"), "quality of step %d is %s where Algorithm 10.1.2 gives %s, e.g. initial cost %s, costs %s, model changes %s" % (
                                i, fmt(got), fmt(want[i]), fmt(p["c"]), [fmt(p["c%d" % k]) for k in range(i + 1)], [fmt(p["m%d" % k]) for k in range(i + 1)]))
                            return
                C.passed(key)
                C.count("sequences")
                C.sample("%s: %d numeric instances" % (key, N))
            guarded(C, key, go)
    C.assume = ["real arithmetic"]
    return C
