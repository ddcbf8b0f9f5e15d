"""C24: the line search minimizer's loop."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
from props import c11
M = mpmath.mpf
RULE = ("value numbering of LineSearchMinimizer::Minimize unrolled to max_num_iterations 0..4 with uninterpreted evaluator, direction, line search and callback: parameters, termination type, counters, every iteration summary, the initial step sizes and states handed "
        "to the line search and the direction, and the options of both == the documented loop; the evaluator only ever sees points it was told about")
CONVERGENCE, NO_CONVERGENCE, FAILURE, USER_SUCCESS, USER_FAILURE = range(5)
TYPES = ["CONVERGENCE", "NO_CONVERGENCE", "FAILURE", "USER_SUCCESS", "USER_FAILURE"]
NAMES = ("Cost", "Grad", "EvalOk", "Plus", "PlusOk", "Dir", "DirOk", "Length", "Mode", "Back")
OPT = ["gradient tolerance", "parameter tolerance", "function tolerance", "max time", "preprocessor time", "fixed cost", "sufficient function decrease", "max step contraction", "min step contraction", "min step size", "sufficient curvature decrease", "max step expansion"]
COLS = ["iteration", "cost", "cost_change", "gradient_max_norm", "gradient_norm", "step_norm", "step_size", "line_search_function_evaluations", "line_search_gradient_evaluations", "line_search_iterations", "step_is_valid", "step_is_successful"]


def norm(v):
    return mpmath.sqrt(sum(x * x for x in v))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def model(f, o, n, restarts, x, tr=None):
    gt, pt, ft, mt, ppt, fixed = o[:6]
    tr = tr if tr is not None else []
    rows, calls = [], []
    cnt = dict(ok=0, bad=0, steps=0, created=0, next=0, searches=0, initial=None)

    def result(t):
        return x, {t} if isinstance(t, int) else t, cnt, rows, calls

    def evaluate(p):
        if f["EvalOk"](*p) <= 0:
            return None
        return f["Cost"](*p), [f["Grad"](M(i), *p) for i in range(2)]

    def norms(p, g):
        ng = [-v for v in g]
        if f["PlusOk"](*p, *ng) <= 0:
            return None
        d = [p[i] - f["Plus"](M(i), *p, *ng) for i in range(2)]
        return max(abs(v) for v in d), dot(d, d)
    q = evaluate(x)
    if q is None:
        return result(FAILURE)
    cost, g = q
    q = norms(x, g)
    if q is None:
        return result(FAILURE)
    gmax, gsq = q
    cnt["initial"] = cost + fixed
    tr.append((0, gmax))
    if gmax <= gt:
        return result(CONVERGENCE)
    row = dict.fromkeys(COLS, M(0))
    row.update(cost=cost + fixed, gradient_max_norm=gmax, gradient_norm=mpmath.sqrt(gsq))
    rows.append(row)
    cnt["created"] = 1
    prev, d, restarted, it = None, None, 0, 0
    while True:
        calls.append((rows[-1]["cost"], list(x)))
        b = f["Back"](M(it))
        if b:
            return result(USER_SUCCESS if b == 1 else USER_FAILURE)
        if it >= n or not ppt < mt:
            return result(NO_CONVERGENCE)
        it += 1
        ok = True
        if it == 1:
            d = [-v for v in g]
        else:
            cnt["next"] += 1
            a = (M(cnt["created"]), M(cnt["next"]))
            ok = f["DirOk"](*a) > 0
            if ok:
                d = [f["Dir"](M(i), *a, prev["cost"], *prev["g"], prev["gsq"], *prev["d"], prev["t"], cost, *g, gsq) for i in range(2)]
            else:
                if restarted >= restarts:
                    return result(FAILURE)
                restarted += 1
                cnt["created"] += 1
                d = [-v for v in g]
        slope = dot(g, d)
        step = min(M(1), 1 / gmax if it == 1 or not ok else 2 * (cost - prev["cost"]) / slope)
        if step < 0:
            return result(FAILURE)
        cnt["searches"] += 1
        k = M(cnt["searches"])
        t = f["Length"](k, step, cost, slope, *x, *d)
        mode = f["Mode"](k)
        if mode == 0:
            return result(FAILURE)
        if mode != 3 and f["PlusOk"](*x, *[t * v for v in d]) <= 0:
            return result(FAILURE)
        prev = dict(cost=cost, g=g, gsq=gsq, d=d, t=M(0) if mode == 3 else t)
        y = list(x) if mode == 3 else [f["Plus"](M(i), *x, *[t * v for v in d]) for i in range(2)]
        q = evaluate(y)
        if q is None:
            return result(FAILURE)
        cost, g = q
        q = norms(y, g)
        if q is None:
            return result(FAILURE)
        gmax, gsq = q
        sn, xn = norm([p - s for p, s in zip(y, x)]), norm(x)
        x = y
        row = dict.fromkeys(COLS, M(1))
        row.update(iteration=M(it), cost=cost + fixed, cost_change=prev["cost"] - cost, gradient_max_norm=gmax, gradient_norm=mpmath.sqrt(gsq), step_norm=sn, step_size=prev["t"],
                   line_search_function_evaluations=5 * k, line_search_gradient_evaluations=7 * k, line_search_iterations=3 * k)
        rows.append(row)
        cnt["ok"] += 1
        cnt["steps"] += 3 * int(k)
        tr += [(1, sn, xn), (0, gmax), (2, abs(row["cost_change"]) / abs(prev["cost"]) if prev["cost"] else M(0))]
        if sn <= pt * (xn + pt) or gmax <= gt or abs(row["cost_change"]) <= ft * abs(prev["cost"]):
            return result(CONVERGENCE)


def problems(r):
    fl = lambda lo, hi: M(r.r.uniform(lo, hi))

    def base(falling, mode=lambda k: M(1)):
        a, ph, w, gs = [fl(-3, 3) for _ in range(14)], [fl(0, 6) for _ in range(8)], fl(.3, 3), fl(.3, 4)
        wave = lambda k, *v: mpmath.sin(ph[k] + sum(q * a[(k + i) % 14] for i, q in enumerate(v)))
        seen = []

        def cost(*p):
            if p not in seen:
                seen.append(p)
            # decreasing along the path, whatever the path is
            return 9 - M(seen.index(p)) * falling + wave(0, *p) * (1 - abs(falling)) if falling else 5 + w * wave(0, *p)
        return {"Cost": cost, "Grad": lambda i, x, y: gs * wave(1, x, y, i), "EvalOk": lambda x, y: M(1), "PlusOk": lambda *v: M(1), "Plus": lambda i, x, y, d, e: (x + d if i == 0 else y + e) + mpmath.sin(d * e + i) * (d * d + e * e) / 9,
                "Dir": lambda i, *v: wave(2, i, *v), "DirOk": lambda c, k: M(1), "Length": lambda *v: fl(1, 1) * (wave(3, *v) + 1.2), "Mode": mode, "Back": lambda i: M(0)}

    def descent(f):
        # directions that go down
        d0 = f["Dir"]
        f["Dir"] = lambda i, c, k, *v: -(1.5 + d0(M(0), c, k, *v)) * v[8 + int(i)] if len(v) == 12 else d0(i, c, k, *v)
        return f
    for s in range(6):
        yield "plain %d" % s, base(0)
    for s in range(6):
        yield "descent %d" % s, descent(base(0))
    for s in range(8):
        yield "falling %d" % s, descent(base(M("0.6")))
    for s in range(4):
        yield "without gradients %d" % s, descent(base(M("0.6"), lambda k: M(2)))
    for s in range(1, 5):
        yield "search %d stays where it started" % s, descent(base(M("0.6"), lambda k, s=s: M(3 if k == s else 1)))
        yield "search %d fails" % s, descent(base(M("0.6"), lambda k, s=s: M(0 if k == s else 2)))
    for bad in ((1,), (2,), (3,), (1, 2), (1, 3), (2, 3), (1, 2, 3)):
        f = descent(base(M("0.6")))
        f["DirOk"] = lambda c, k, bad=bad: M(0 if int(k) in bad else 1)
        yield "direction fails at %s" % (bad,), f
    for b, at in itertools.product((1, 2), (0, 1, 2)):
        f = descent(base(M("0.6")))
        f["Back"] = lambda i, b=b, at=at: M(b if i == at else 0)
        yield "callback returns %d at iteration %d" % (b, at), f
    for nm, at, md in itertools.product(("EvalOk", "PlusOk"), range(5), (1, 2)):
        f = descent(base(M("0.6"), lambda k, md=md: M(md)))
        seen = []

        def ok(*v, seen=seen, at=at):
            if v not in seen:
                seen.append(v)
            return M(0 if seen.index(v) == at else 1)
        f[nm] = ok
        yield "%s fails at point %d" % (nm, at), f


def run():
    C = Check("C24", RULE, floor=6)
    F = facts.load([facts.witness("lsminimizer.cc")] + [facts.REPO + "/internal/ceres/" + s for s in ("line_search_minimizer.cc", "line_search.cc", "minimizer.cc", "evaluator.cc", "solver.cc", "function_sample.cc", "line_search_direction.cc", "types.cc")])
    r = rng("c24")
    loc = loc_of(F, "ceres::internal::LineSearchMinimizer", "Minimize")
    ld = lambda ip, v: ip.load(v) if isinstance(v, (Cell, LVal)) else v
    W = {n: witness_fn(F, "w::", n) for n in ("Start", "MakeDirection", "MakeSearch", "Minimize")}
    for n, restarts in ((0, 1), (1, 1), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1)) + (((5, 2), (6, 1)) if THOROUGH else ()):
        key = "%d iterations, %d restarts" % (n, restarts)

        def go(n=n, restarts=restarts, key=key):
            ip = Interp(F, 8000000)
            c11.hooks(ip, NAMES)
            for m in ("ResetTimeStatistics", "TimeStatistics"):
                ip.hooks["ceres::internal::LineSearchFunction::" + m] = lambda ip, recv, a, nd: None
            keep = {}

            def mini(ip, recv, a, nd):
                keep["log"], keep["sum"] = a[13], ld(ip, a[14])
                h = ip.hooks.pop(W["Minimize"].q)
                try:
                    return ip.call(W["Minimize"], [ld(ip, v) for v in a])
                finally:
                    ip.hooks[W["Minimize"].q] = h
            ip.hooks[W["Minimize"].q] = mini
            ip.hooks["ceres::internal::LineSearchDirection::Create"] = lambda ip, recv, a, nd: ip.call(W["MakeDirection"], [a[0], ld(ip, keep["log"])])
            ip.hooks["ceres::internal::LineSearch::Create"] = lambda ip, recv, a, nd: ip.call(W["MakeSearch"], [ld(ip, a[0]), a[1], ld(ip, keep["log"])])
            ints = dict(type=r.r.randint(0, 3), nlcg=r.r.randint(0, 2), rank=17, scaling=r.r.randint(0, 1), search=r.r.randint(0, 1), interp=r.r.randint(0, 2), iters=23)
            x, log, out, made = array("x", 2), array("log", 4 * (n + 2), [ZERO] * (4 * n + 8)), array("out", 8, [ZERO] * 8), array("made", 14, [ZERO] * 14)
            ip.call(W["Start"], [array("o", 12), const(n), const(restarts)] + [const(v) for v in ints.values()] + [x, log, out, made])
            summ = ip.load(ip.deref(keep["sum"]))
            its = summ.f["iterations"].v.reg
            inst = 0
            for what, f in problems(r):
                p0 = [mp(r.num(-1, 1)) for _ in range(2)]
                base = [M(0), M(0), M(0), M(100), M(1), mp(r.num(0, 3))] + [mp(r.num(0, 1)) for _ in range(6)]
                tr = []
                model(f, base, n, restarts, list(p0), tr)
                opts = [base]
                for t in tr:
                    for k in (M("0.99"), M("1.01")):
                        o = list(base)
                        o[t[0]] = k * t[1] if t[0] != 1 else k * (-t[2] + mpmath.sqrt(t[2] ** 2 + 4 * t[1])) / 2
                        opts.append(o)
                for v in (M("0.99"), M("1"), M("1.01")):
                    o = list(base)
                    o[3] = v
                    opts.append(o)
                limit = 40 if THOROUGH else 12
                if len(opts) > limit:
                    opts = opts[:1] + [opts[i] for i in sorted(r.r.sample(range(1, len(opts)), limit - 1))]
                for o in opts:
                    user, types, cnt, rows, calls = model(f, o, n, restarts, list(p0))
                    inst += 1
                    p = {"x0": p0[0], "x1": p0[1]}
                    p.update({"o%d" % i: v for i, v in enumerate(o)})
                    e = tm.Env(p, dict(f))
                    txt = " (%s; %s)" % (what, ", ".join("%s %s" % (nm, mpmath.nstr(v, 5)) for nm, v in zip(OPT, o[:6])))

                    def bad(what_, got, want):
                        C.violation(key, loc, "%s is %s where the documented loop gives %s%s" % (what_, fmt(got), fmt(want), txt))
                    t = int(e.ev(out.reg.cells[0].v))
                    if t not in types:
                        bad("termination type", TYPES[t], "/".join(TYPES[q] for q in sorted(types)))
                        return
                    num = sum(1 for c in its.cells if e.ev(its.when[c]))
                    if num != len(rows):
                        bad("number of iteration summaries", num, len(rows))
                        return
                    want = [("parameter %d returned to the user" % i, x.reg.cells[i], user[i]) for i in range(2)]
                    if cnt["initial"] is not None:
                        want.append(("initial cost", out.reg.cells[3], cnt["initial"]))
                    want += [("number of %s" % nm, out.reg.cells[i], M(v)) for i, nm, v in ((1, "successful steps", cnt["ok"]), (2, "unsuccessful steps", cnt["bad"]), (4, "line search steps", cnt["steps"]), (5, "directions created", cnt["created"]),
                             (6, "directions asked for", cnt["next"]), (7, "line searches", cnt["searches"]))]
                    for i, w in enumerate(rows):
                        want += [("%s of iteration %d" % (c, i), its.cells[i].v.f[c], w[c]) for c in COLS]
                    for i in range(n + 2):
                        w = (M(1), calls[i][0], *calls[i][1]) if i < len(calls) else (M(0),) * 4
                        want += [("callback for iteration %d: %s" % (i, c), log.reg.cells[4 * i + j], w[j]) for j, c in enumerate(("number of calls", "cost", "parameter 0", "parameter 1"))]
                    if cnt["created"]:
                        w = [2, ints["type"], ints["nlcg"], ints["rank"], ints["scaling"], ints["search"], ints["interp"], o[6], o[7], o[8], o[9], ints["iters"], o[10], o[11]]
                        want += [("option %d of the direction and line search" % i, made.reg.cells[i], M(v)) for i, v in enumerate(w)]
                    for nm, cell, v in want:
                        g = e.ev(cell.v)
                        g = M(1) if g is True else M(0) if g is False else g
                        if not tm.close(g, v):
                            bad(nm, g, v)
                            return
            C.count("instances", inst)
            C.passed(key)
        guarded(C, key, go)
    C.assume = ["real arithmetic", "time limits are compared once per iteration with the preprocessing time (the clock itself stands still)", "the line search reports the samples it evaluated, or the point it started from"]
    return C
