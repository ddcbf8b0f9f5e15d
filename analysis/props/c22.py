"""C22: line searches."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
from props import c11, c21
M = mpmath.mpf
RULE = ("value numbering of LineSearchFunction::Evaluate, InterpolatingPolynomialMinimizingStepSize, ArmijoLineSearch and WolfeLineSearch (loops unrolled to max_num_iterations) over an uninterpreted evaluator: "
        "returned sample, success flag and counters == the documented Armijo backtracking and Nocedal-Wright bracketing and zoom searches")
BISECTION, QUADRATIC, CUBIC = range(3)
NAMES = ("Cost", "Grad", "EvalOk", "Plus", "PlusOk")
COLS = ["x", "vector_x_is_valid", "value_is_valid", "gradient_is_valid", "vector_gradient_is_valid", "vector_x(0)", "vector_x(1)", "value", "gradient", "vector_gradient(0)", "vector_gradient(1)"]
OUT = ["optimal_point." + c for c in COLS] + ["success", "num_iterations", "num_function_evaluations", "num_gradient_evaluations"]


class S:
    def __init__(self, x=M(0), value=None, gradient=None):
        self.x, self.value, self.gradient, self.vx, self.vg = x, value, gradient, None, None

    def row(self):
        z = [M(0)] * 11
        z[0] = self.x
        if self.vx is not None:
            z[1], z[5], z[6] = M(1), self.vx[0], self.vx[1]
        if self.value is not None:
            z[2], z[7] = M(1), self.value
        if self.gradient is not None:
            z[3], z[8] = M(1), self.gradient
        if self.vg is not None:
            z[4], z[9], z[10] = M(1), self.vg[0], self.vg[1]
        return z

    def key(self):
        if self.value is None:
            return [M(0), self.x, M(0), M(0), M(0)]
        return [M(1), self.x, self.value, M(self.gradient is not None), self.gradient if self.gradient is not None else M(0)]


def evaluate(f, x, d, t, grad):
    s = S(t)
    st = [t * v for v in d]
    if f["PlusOk"](*x, *st) <= 0:
        return s
    s.vx = [f["Plus"](M(i), *x, *st) for i in range(2)]
    if f["EvalOk"](*s.vx) <= 0:
        return s
    v = f["Cost"](*s.vx)
    if not mpmath.isfinite(v):
        return s
    s.value = v
    if grad:
        g = [f["Grad"](M(i), *s.vx) for i in range(2)]
        q = d[0] * g[0] + d[1] * g[1]
        if mpmath.isfinite(q):
            s.gradient, s.vg = q, g
    return s


def initial(x, cost, slope):
    s = S(M(0), cost, slope)
    s.vx = list(x)
    return s


def armijo(f, o, kind, n, x, d, t, cost, slope):
    c1, c2, lo, hi, tiny, grow = o
    top = max(abs(v) for v in d)
    init, prev = initial(x, cost, slope), S()
    g = kind == CUBIC
    cur = evaluate(f, x, d, t, g)
    it, ev = 0, 1
    while cur.value is None or cur.value > cost + c1 * slope * cur.x:
        it += 1
        if it >= n:
            return S().row() + [M(0), M(it), M(ev), M(ev if g else 0)]
        t = f["StepSize"](init, prev, cur, lo * cur.x, hi * cur.x)
        if t * top < tiny:
            return S().row() + [M(0), M(it), M(ev), M(ev if g else 0)]
        prev = cur
        ev += 1
        cur = evaluate(f, x, d, t, g)
    return cur.row() + [M(1), M(it), M(ev), M(ev if g else 0)]


def wolfe(f, o, kind, n, x, d, t, cost, slope):
    c1, c2, lo, hi, tiny, grow = o
    top = max(abs(v) for v in d)
    init = initial(x, cost, slope)
    prev = init
    cur = evaluate(f, x, d, t, True)
    it, ev = 0, 1
    width = lambda a, b: abs(a.x - b.x) * top
    decrease = lambda s: s.value <= cost + c1 * slope * s.x
    done = lambda s, k, e: s.row() + [M(1), M(it), M(ev), M(ev)]
    fail = lambda: S().row() + [M(0), M(it), M(ev), M(ev)]
    best = init
    while True:
        it += 1
        ok = cur.value is not None
        if ok and (not decrease(cur) or cur.value > prev.value):
            low, high = prev, cur
            break
        if ok and abs(cur.gradient) <= -c2 * slope:
            return done(cur, it, ev)
        if ok and cur.gradient >= 0:
            low, high = cur, prev
            break
        if ok and width(cur, prev) < tiny:
            return done(cur, it, ev)
        if it >= n:
            # the best point found that has sufficient decrease
            return done(min([s for s in (prev, cur) if s.value is not None], key=lambda s: s.value), it, ev)
        t = f["StepSize"](prev, S(), cur, cur.x if ok else prev.x, cur.x * grow if ok else cur.x)
        if t * top < tiny:
            return fail()
        if ok:
            prev = cur
        ev += 1
        cur = evaluate(f, x, d, t, True)
    if width(high, low) < tiny:
        return done(low, it, ev)
    if low.gradient * (high.x - low.x) >= 0:
        return fail()
    while True:
        if it >= n or width(high, low) < tiny:
            return done(low, it, ev)
        it += 1
        a, b = (low, high) if low.x < high.x else (high, low)
        t = f["StepSize"](a, S(), b, a.x, b.x)
        ev += 1
        s = evaluate(f, x, d, t, True)
        if s.value is None:
            return fail()
        if not decrease(s) or s.value >= low.value:
            high = s
            continue
        if abs(s.gradient) <= -c2 * slope:
            return done(s, it, ev)
        if s.gradient * (high.x - low.x) >= 0:
            high = low
        low = s


def world(r, kind, smooth=False):
    """an evaluator: smooth, wiggly or quantized costs, failures"""
    fl = lambda lo, hi: M(r.r.uniform(lo, hi))
    a, ph, w = [fl(-6, 6) for _ in range(8)], [fl(0, 6) for _ in range(8)], fl(0, 3)
    quant = r.r.random() < .3
    pf, pe = r.r.choice((0, 0, 0, .3)), r.r.choice((0, 0, .2, .5))
    inf = r.r.choice((0, 0, .2))
    trend = fl(-4, 4)

    def wave(k, *v):
        return mpmath.sin(ph[k] + sum(q * a[(k + i) % 8] for i, q in enumerate(v)))

    def cost(x, y):
        if inf and wave(5, x, y) > 1 - 2 * inf:
            return mpmath.inf if wave(6, x, y) > 0 else mpmath.nan
        v = w * wave(0, x, y) + trend * (x + y) / 2
        return mpmath.floor(v * 2) / 2 if quant else v
    gs = fl(0, 2) ** 2

    def step(lb, prev, cur, lo, hi):
        k = lb.key() + prev.key() + cur.key()
        if prev.value is None:
            k[6] = M(0)
        u = (wave(3, *k) + 1) / 2
        return lo + (hi - lo) * u
    return {"Cost": cost, "Grad": lambda i, x, y: gs * wave(1, x, y, i), "EvalOk": lambda x, y: M(1) if pe == 0 else wave(2, x, y) + 1 - 2 * pe,
            "PlusOk": lambda *v: M(1) if pf == 0 else wave(4, *v) + 1 - 2 * pf, "Plus": lambda i, x, y, d, e: (x + d if i == 0 else y + e) + mpmath.sin(d * e + i) * (d * d + e * e) / 9, "StepSize": step}


def step_fn(f):
    def q(lv, lx, lval, lg, lgrad, pv, px, pval, pg, pgrad, cv, cx, cval, cg, cgrad, lo, hi):
        mk = lambda v, x, val, g, gr: S(x, val if v else None, gr if v and g else None)
        return f["StepSize"](mk(lv, lx, lval, lg, lgrad), mk(pv, px, pval, pg, pgrad), mk(cv, cx, cval, cg, cgrad), lo, hi)
    return q


def num_of(v):
    return M(1) if v is True else M(0) if v is False else v


def run():
    C = Check("C22", RULE, floor=12)
    F = facts.load([facts.witness("linesearch.cc")] + [facts.REPO + "/internal/ceres/" + s for s in ("line_search.cc", "polynomial.cc", "function_sample.cc", "evaluator.cc", "types.cc")])
    r = rng("c22")
    ld = lambda ip, v: ip.load(v) if isinstance(v, (Cell, LVal)) else v
    fl = lambda lo, hi: M(r.r.uniform(lo, hi))

    def engine():
        ip = Interp(F, 8000000)
        c11.hooks(ip, NAMES)
        for m in ("ResetTimeStatistics", "TimeStatistics"):
            ip.hooks["ceres::internal::LineSearchFunction::" + m] = lambda ip, recv, a, nd: None
        return ip

    def differ(e, out, want, cols):
        for c, cell, w in zip(cols, out.reg.cells, want):
            if cell.v is UNINIT:
                return "%s is never written, expected %s" % (c, fmt(w))
            g = num_of(e.ev(cell.v))
            if not (tm.close(g, w) or (mpmath.isnan(g) and mpmath.isnan(w))):
                return "%s = %s, expected %s" % (c, fmt(g), fmt(w))
        return None

    # --- evaluation along the direction
    loc = loc_of(F, "ceres::internal::LineSearchFunction", "Evaluate")
    for grad in (0, 1):
        key = "sample along the direction, %s" % ("with gradient" if grad else "without gradient")

        def sample(grad=grad, key=key):
            ip = engine()
            out = array("out", 12, [ZERO] * 12)
            ip.call(witness_fn(F, "w::", "Sample"), [array("x", 2), array("d", 2), tm.sym("t"), const(grad), out])
            for k in range(12 * NPTS):
                f = world(r, CUBIC)
                if k % 4 == 3:
                    g0 = f["Grad"]
                    f["Grad"] = lambda i, x, y, g0=g0: mpmath.inf if i == 1 else g0(i, x, y)
                x, d, t = [fl(-2, 2), fl(-2, 2)], [fl(-2, 2), fl(-2, 2)], fl(0, 2)
                e = tm.Env(dict({"x0": x[0], "x1": x[1], "d0": d[0], "d1": d[1]}, t=t), f)
                w = evaluate(f, x, d, t, grad).row() + [max(abs(v) for v in d)]
                m = differ(e, out, w, COLS + ["DirectionInfinityNorm()"])
                if m:
                    C.violation(key, loc, m)
                    return
            C.passed(key)
        guarded(C, key, sample)

    # --- the interpolation
    loc = loc_of(F, "ceres::internal::LineSearch", "InterpolatingPolynomialMinimizingStepSize")
    fn = witness_fn(F, "w::", "Interp")
    for kind, pv, pg, cv, cg in itertools.product((BISECTION, QUADRATIC, CUBIC), (0, 1), (0, 1), (0, 1), (0, 1)):
        if pg > pv or cg > cv:
            continue
        for lv in ((1, 0), (1, 1)) if cv and kind != BISECTION else ((1, 1), (0, 0)):
            key = "step size from %s interpolation, lower bound %s, previous %s, current %s" % (("bisection", "quadratic", "cubic")[kind], *[("invalid", "value only", "value and gradient")[a + b] for a, b in (lv, (pv, pg), (cv, cg))])

            def interp(kind=kind, key=key, lv=lv, pv=pv, pg=pg, cv=cv, cg=cg):
                ip = engine()
                flags = lv + (pv, pg, cv, cg)

                def minimize(ip, recv, a, nd):
                    a = [ld(ip, v) for v in a]
                    fs = []
                    for c in a[0].reg.cells:
                        q = c.v.f
                        fs += [ite(q["value_is_valid"].v, ONE, ZERO), ite(q["gradient_is_valid"].v, ONE, ZERO), q["x"].v, q["value"].v, q["gradient"].v]
                    ip.store(ip.deref(a[3]), tm.uf("MinPoly", a[1], a[2], *[tm.ZERO if isinstance(v, type(UNINIT)) else v for v in fs]))
                ip.hooks["ceres::internal::MinimizeInterpolatingPolynomial"] = minimize
                out = array("out", 1, "uninit")
                ip.call(fn, [array("s", 9), Ptr(Region([Cell(const(v)) for v in flags], "valid")), const(kind), tm.sym("lo"), tm.sym("hi"), out])

                def poly(lo, hi, *fs):
                    cs = []
                    for i in range(0, len(fs), 5):
                        if fs[i]:
                            cs.append((0, fs[i + 2], fs[i + 3]))
                        if fs[i + 1]:
                            cs.append((1, fs[i + 2], fs[i + 4]))
                    # an arbitrary function of the set of conditions and the interval
                    v = M(0)
                    for g, x, y in sorted(set(cs)):
                        v += mpmath.sin(3 * g + 2 * x + 5 * y)
                    return lo + (hi - lo) * (1 + mpmath.sin(v)) / 2
                for k in range(8 * NPTS):
                    lo, hi = sorted((fl(0, 2), fl(0, 2)))
                    v = {"s%d" % i: fl(-2, 2) for i in range(9)}
                    v["s0"] = M(0) if k % 2 else fl(0, 2)
                    v["s3"], v["s6"] = fl(0, 3), fl(0, 3)
                    if k % 8 == 1:
                        v["s6"] = hi
                    s = [S(v["s%d" % (3 * i)], v["s%d" % (3 * i + 1)] if flags[2 * i] else None, v["s%d" % (3 * i + 2)] if flags[2 * i + 1] else None) for i in range(3)]
                    if s[2].value is None or kind == BISECTION and hi <= s[2].x:
                        w = min(max(s[2].x / 2, lo), hi)
                    elif kind == BISECTION:
                        w = hi
                    else:
                        fs = []
                        for i, q in enumerate(s):
                            if q.value is None:
                                continue
                            g = q.gradient is not None and (i == 0 or kind == CUBIC)
                            fs += [1, int(g), q.x, q.value, q.gradient if g else M(0)]
                        w = poly(lo, hi, *fs)
                    e = tm.Env(dict(v, lo=lo, hi=hi), {"MinPoly": poly})
                    g = e.ev(out.reg.cells[0].v)
                    if not tm.close(g, w):
                        C.violation(key, loc, "step size %s, expected %s, for the interval [%s, %s] and current step %s" % (fmt(g), fmt(w), fmt(lo), fmt(hi), fmt(s[2].x)))
                        return
                C.passed(key)
            guarded(C, key, interp)

    # --- the searches
    fn = witness_fn(F, "w::", "Search")
    for name, model, cls, depth in (("Armijo", armijo, "ArmijoLineSearch", (1, 2, 3, 4, 5)), ("Wolfe", wolfe, "WolfeLineSearch", (1, 2, 3, 4) if not THOROUGH else (1, 2, 3, 4, 5))):
        loc = loc_of(F, "ceres::internal::" + cls, "DoSearch")
        for kind, n in itertools.product((BISECTION, QUADRATIC, CUBIC), depth):
            key = "%s search with %s interpolation, at most %d iterations" % (name, ("bisection", "quadratic", "cubic")[kind], n)

            def search(kind=kind, n=n, key=key, model=model, name=name):
                ip = engine()

                def hs(ip, recv, a, nd):
                    a = [ld(ip, v) for v in a]
                    z = lambda v: ZERO if v is UNINIT else v
                    fs = []
                    for s in a[1:4]:
                        fs += [ite(s.f["value_is_valid"].v, ONE, ZERO), z(s.f["x"].v), z(s.f["value"].v), ite(s.f["gradient_is_valid"].v, ONE, ZERO), z(s.f["gradient"].v)]
                    return tm.uf("Step", *fs, a[4], a[5])
                ip.hooks["ceres::internal::LineSearch::InterpolatingPolynomialMinimizingStepSize"] = hs
                out = array("out", 15, [ZERO] * 15)
                ip.call(fn, [const(int(name == "Wolfe")), array("o", 6), const(kind), const(n), array("x", 2), array("d", 2), tm.sym("t"), tm.sym("c"), tm.sym("g"), out])
                hits = {}
                for k in range(40 * NPTS):
                    f = world(r, kind)
                    o = [M(10) ** fl(-3, -1), fl(.2, .95), M("0.01"), fl(.5, .9), M(10) ** fl(-4, 0) if r.r.random() < .3 else M("1e-6"), fl(1.5, 5)]
                    x, d = [fl(-2, 2), fl(-2, 2)], [fl(-2, 2), fl(-2, 2)]
                    t = fl(.05, 2)
                    g = -abs(fl(.1, 3))
                    c = f["Cost"](*x)
                    if not mpmath.isfinite(c):
                        c = M(1)
                    if r.r.random() < .5:
                        c += fl(-1, 2)
                    want = model(f, o, kind, n, x, d, t, c, g)
                    hits[tuple(int(v) for v in want[11:])] = hits.get(tuple(int(v) for v in want[11:]), 0) + 1
                    v = {"o%d" % i: q for i, q in enumerate(o)}
                    v.update(x0=x[0], x1=x[1], d0=d[0], d1=d[1], t=t, c=c, g=g)
                    e = tm.Env(v, dict(f, Step=step_fn(f)))
                    m = differ(e, out, want, OUT)
                    if m:
                        C.violation(key, loc, "%s (step %s, cost %s, slope %s; the search should %s after %d iterations and %d evaluations with step %s)" % (
                            m, fmt(t), fmt(c), fmt(g), "succeed" if want[11] else "fail", want[12], want[13], fmt(want[0])))
                        return
                C.count("search outcomes", len(hits))
                C.passed(key, str(sorted(hits)))
            guarded(C, key, search)
    C.assume = ["real arithmetic", "a finite cost comes with a finite directional derivative (searches only)", "interpolated steps lie in the requested interval"]
    return C
