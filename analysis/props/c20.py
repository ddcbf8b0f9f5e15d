"""C20: the trust region minimizer's loop."""
from alg import *
import facts, itertools, hashlib
from check import Check
from rotmath import mp
import mpmath
from props import c11
M = mpmath.mpf
MAX = M(2) ** 1024 - M(2) ** 971
RULE = ("value numbering of TrustRegionMinimizer::Minimize unrolled to max_num_iterations 0..4 with uninterpreted evaluator, strategy, callback, inner iterations and line search: parameters, termination type, step counts, every iteration summary and every call made on the strategy "
        "== the documented trust region loop; the evaluator only ever sees points it was told about")
CONVERGENCE, NO_CONVERGENCE, FAILURE, USER_SUCCESS, USER_FAILURE = range(5)
TYPES = ["CONVERGENCE", "NO_CONVERGENCE", "FAILURE", "USER_SUCCESS", "USER_FAILURE"]
SRC = ["trust_region_minimizer.cc", "minimizer.cc", "trust_region_step_evaluator.cc", "sparse_matrix.cc", "linear_operator.cc", "evaluator.cc", "solver.cc", "parallel_vector_ops.cc", "line_search.cc", "coordinate_descent_minimizer.cc"]
NAMES = ("Cost", "Res", "Grad", "Jac", "EvalOk", "JacOk", "Plus", "PlusOk", "Step", "Term", "Back", "Inner", "LsOk", "LsX")
OPT = ["gradient tolerance", "parameter tolerance", "function tolerance", "min relative decrease", "min radius", "initial radius", "max time", "preprocessor time", "fixed cost", "inner tolerance", "eta"]
COLS = ["cost", "cost change", "gradient max norm", "gradient norm", "step norm", "relative decrease", "trust region radius", "step_is_valid", "step_is_successful", "step_is_nonmonotonic", "linear solver iterations",
        "user parameter 0", "user parameter 1", "number of StepAccepted calls", "number of StepRejected calls", "number of StepIsInvalid calls", "step quality passed to the strategy", "callback ran", "eta"]


class Quality:
    """Conn, Gould & Toint, Algorithm 10.1.2"""

    def __init__(self, c, maxnm):
        self.mn = self.cur = self.ref = self.cand = c
        self.maxnm, self.num, self.aref, self.acand = maxnm, 0, M(0), M(0)

    def q(self, c, m):
        return -MAX if c >= MAX else max((self.cur - c) / m, (self.ref - c) / (self.aref + m))

    def accept(self, c, m):
        self.cur = c
        self.acand += m
        self.aref += m
        if c < self.mn:
            self.mn, self.num, self.cand, self.acand = c, 0, c, M(0)
        else:
            self.num += 1
            if c > self.cand:
                self.cand, self.acand = c, M(0)
        if self.num == self.maxnm:
            self.ref, self.aref = self.cand, self.acand


def norm(v):
    return mpmath.sqrt(sum(x * x for x in v))


def model(f, o, n, max_invalid, scaling, nonmono, constrained, search, inner, x, tr=None):
    """(user parameters, termination types allowed, counters, rows)"""
    gt, pt, ft, md, mr, radius, mt, ppt, fixed, it_tol, eta = o
    tr = tr if tr is not None else []
    rows, user = [], list(x)
    cnt = dict(calls=0, acc=0, rej=0, inv=0, ok=0, bad=0, inner=0, initial=None)
    S, last_q, invalid = [M(1), M(1)], M(0), 0
    mincost = MAX
    z = dict(zip(COLS, [M(0)] * len(COLS)))

    def result(t):
        return user, {t} if isinstance(t, int) else t, cnt, rows

    def grad_at(first, z):
        """Jacobian and projected gradient at x"""
        nonlocal S
        if f["EvalOk"](*x) <= 0 or f["JacOk"](*x) <= 0:
            return None
        c = f["Cost"](*x)
        z["cost"] = c + fixed
        r = [f["Res"](i, *x) for i in range(2)]
        g = [f["Grad"](i, *x) for i in range(2)]
        J = [[f["Jac"](i, j, *x) for j in range(2)] for i in range(2)]
        if scaling:
            if first:
                S = [1 / (1 + mpmath.sqrt(J[0][c_] ** 2 + J[1][c_] ** 2)) for c_ in range(2)]
            J = [[J[i][j] * S[j] for j in range(2)] for i in range(2)]
        ng = [-v for v in g]
        if f["PlusOk"](*x, *ng) <= 0:
            return None
        d = [x[i] - f["Plus"](i, *x, *ng) for i in range(2)]
        z["gradient max norm"], z["gradient norm"] = max(abs(v) for v in d), norm(d)
        return c, r, g, J

    z.update({"eta": eta})
    if constrained:
        if f["PlusOk"](*x, M(0), M(0)) <= 0:
            return result(FAILURE)
        x = [f["Plus"](i, *x, M(0), M(0)) for i in range(2)]
    q = grad_at(True, z)
    if q is None:
        return result(FAILURE)
    cost, r, g, J = q
    cnt["initial"] = cost + fixed
    z.update({"step_is_valid": M(1), "step_is_successful": M(1)})
    ev = Quality(cost, nonmono)
    succeeded = False
    inner_on = bool(inner)
    it = 0
    while True:
        # end of the iteration
        if z["step_is_successful"]:
            cnt["ok"] += 1
            if cost < mincost:
                mincost = cost
                user = list(x)
            else:
                z["step_is_nonmonotonic"] = M(1)
        else:
            cnt["bad"] += 1
        z["trust region radius"] = radius
        z.update({"user parameter 0": user[0], "user parameter 1": user[1], "number of StepAccepted calls": M(cnt["acc"]), "number of StepRejected calls": M(cnt["rej"]), "number of StepIsInvalid calls": M(cnt["inv"]),
                  "step quality passed to the strategy": last_q, "callback ran": M(1)})
        rows.append(dict(z))
        b = f["Back"](M(it))
        if b:
            return result(USER_SUCCESS if b == 1 else USER_FAILURE)
        tests = set()
        if not ppt < mt or it >= n:
            tests.add(NO_CONVERGENCE)
        if z["step_is_successful"]:
            tr.append(("g", z["gradient max norm"]))
            if z["gradient max norm"] <= gt:
                tests.add(CONVERGENCE)
        tr.append(("r", radius))
        if radius <= mr:
            tests.add(CONVERGENCE)
        if tests:
            return result(tests)
        # next iteration
        prev = z
        it += 1
        z = dict(zip(COLS, [M(0)] * len(COLS)))
        z["eta"] = M("0")       # only documented for the iterations that fill it
        cnt["calls"] += 1
        t = f["Term"](M(cnt["calls"]))
        step = [f["Step"](i, M(cnt["calls"]), J[0][0], J[0][1], J[1][0], J[1][1], r[0], r[1]) for i in range(2)]
        if t == 3:
            return result(FAILURE)
        z["linear solver iterations"] = M(cnt["calls"])
        valid = False
        if t != 2:
            m = [J[i][0] * step[0] + J[i][1] * step[1] for i in range(2)]
            change = -sum(m[i] * (r[i] + m[i] / 2) for i in range(2))
            valid = change > 0
        z["step_is_valid"] = M(1 if valid else 0)
        if not valid:
            invalid += 1
            if invalid >= max_invalid:
                return result(FAILURE)
            cnt["inv"] += 1
            radius /= 5
            z.update({"cost": cost + fixed, "gradient max norm": prev["gradient max norm"], "gradient norm": prev["gradient norm"], "eta": eta})
            continue
        invalid = 0
        d = [step[i] * S[i] for i in range(2)]
        if constrained and search:
            slope = g[0] * d[0] + g[1] * d[1]
            if f["LsOk"](M(1), cost, slope, *x, *d) > 0:
                a = f["LsX"](M(1), cost, slope, *x, *d)
                d = [a * v for v in d]
        cx, cc = None, MAX
        if f["PlusOk"](*x, *d) > 0:
            cx = [f["Plus"](i, *x, *d) for i in range(2)]
            if f["EvalOk"](*cx) > 0:
                cc = f["Cost"](*cx)
        useful = False
        if inner_on and cc < MAX:
            cnt["inner"] += 1
            ix = [f["Inner"](i, *cx) for i in range(2)]
            if f["EvalOk"](*ix) > 0:
                ic = f["Cost"](*ix)
                cx = ix
                change += cc - ic
                useful = ic < min(cost, cc)
                tr.append(("i", 1 - ic / cc))
                inner_on = 1 - ic / cc > it_tol
                cc = ic
        tests = set()
        sn = norm([x[i] - cx[i] for i in range(2)]) if cx is not None else None
        if succeeded and cx is not None:
            z["step norm"] = sn
            tr.append(("p", sn, norm(x)))
            if sn <= pt * (norm(x) + pt):
                tests.add(CONVERGENCE)
        else:
            z["step norm"] = None
        z["cost change"] = cost - cc
        tr.append(("f", abs(cost - cc) / cost))
        if abs(cost - cc) <= ft * cost:
            tests.add(CONVERGENCE)
        if tests:
            return result(tests)
        rho = ev.q(cc, change)
        z["relative decrease"] = rho
        tr.append(("d", rho))
        if useful or rho > md:
            succeeded = True
            x = cx
            q = grad_at(False, z)
            if q is None:
                return result(FAILURE)
            cost, r, g, J = q
            z["step_is_successful"] = M(1)
            cnt["acc"] += 1
            last_q = rho
            radius *= 3
            ev.accept(cc, change)
        else:
            z.update({"cost": cc + fixed, "gradient max norm": prev["gradient max norm"], "gradient norm": prev["gradient norm"]})
            cnt["rej"] += 1
            last_q = rho
            radius /= 2


def h(*a):
    """deterministic pseudo-random number in (-1, 1)"""
    d = hashlib.sha256(" ".join(mpmath.nstr(M(v), 18) for v in a).encode()).digest()
    return M(int.from_bytes(d[:6], "big")) / M(1 << 47) - 1


def problems(r):
    """named assignments of the uninterpreted functions"""
    def base(seed, costs=None, flip=None):
        memo, order = {}, []
        key = lambda x: tuple(mpmath.nstr(v, 15) for v in x)

        def cost(*x):
            k = key(x)
            if k not in memo:
                n = len(memo)
                memo[k] = costs[n % len(costs)] + M(n) / 1000 if costs else M(5) + 4 * h(seed, *x)
            return memo[k]
        f = dict(Cost=cost, Res=lambda i, *x: h(seed, 1, i, *x), Grad=lambda i, *x: h(seed, 2, i, *x), Jac=lambda i, j, *x: h(seed, 3, i, j, *x) + (M(1) if i == j else 0),
                 EvalOk=lambda *x: M(1), JacOk=lambda *x: M(1), PlusOk=lambda *x: M(1), Plus=lambda i, *v: v[int(i)] + v[2 + int(i)] * M("0.9") + h(seed, i) / 50,
                 Step=lambda i, k, *v: (-(v[int(i)] * v[4] + v[2 + int(i)] * v[5]) * M("0.3") * (1 + h(seed, 7, k, i) / 3)) * (flip(int(k)) if flip else 1),
                 Term=lambda k: M(0), Back=lambda i: M(0), Inner=lambda i, *x: x[int(i)] + h(seed, 4, i, *x) / 3, LsOk=lambda *v: M(1), LsX=lambda *v: M("0.4") + abs(h(seed, 9, *v)) / 3)
        return f
    down, mixed, up = [9, 8, 7, 6, 5, 4, 3, 2], [5, 6, 4, 7, 3, 8, 2, 6], [5, 6, 7, 8, 9, 10, 11, 12]
    wob = [5, M("5.5"), M("4.5"), M("4.8"), M("4.2"), 6, 3, 4]
    for s, c in enumerate((down, mixed, up, wob, None, None)):
        yield "costs %s" % ("random" if c is None else "-".join(map(str, c[:4]))), base(s, c)
    for s, pat in enumerate(((-1, 1, 1, 1), (1, -1, 1, -1), (-1, -1, 1, 1), (1, -1, -1, -1), (-1, -1, -1, -1))):
        yield "ascending steps %s" % (pat,), base(20 + s, (down, wob)[s % 2], lambda k, pat=pat: pat[(k - 1) % 4])
    for s, (t, at) in enumerate(itertools.product((1, 2, 3), (1, 2, 3))):
        f = base(30 + s, (down, mixed)[s % 2])
        f["Term"] = lambda k, t=t, at=at: M(t if k == at else 0)
        yield "linear solver outcome %d at step %d" % (t, at), f
    f = base(45, down)
    f["Term"] = lambda k: M(2)
    yield "linear solver always fails", f
    for s, (b, at) in enumerate(itertools.product((1, 2), (0, 1, 2))):
        f = base(50 + s, (down, wob, mixed)[s % 3])
        f["Back"] = lambda i, b=b, at=at: M(b if i == at else 0)
        yield "callback returns %d at iteration %d" % (b, at), f
    for s, (nm, at) in enumerate(itertools.product(("EvalOk", "JacOk", "PlusOk"), range(6))):
        f = base(60 + s, (down, mixed)[s % 2])
        seen = []

        def ok(*x, seen=seen, at=at):
            k = tuple(mpmath.nstr(v, 15) for v in x)
            if k not in seen:
                seen.append(k)
            return M(0 if seen.index(k) == at else 1)
        f[nm] = ok
        yield "%s fails at point %d" % (nm, at), f
    f = base(90, down)
    f["LsOk"] = lambda *v: M(0)
    yield "line search fails", f
    for s in range(3):
        f = base(95 + s, [5, 6, 5, M("5.5"), 4, 3, 2, 1] if s < 2 else [5, 9, 4, 8, 3, 7, 2, 6])
        yield "inner iterations repair %d" % s, f


def run():
    C = Check("C20", RULE, floor=12)
    F = facts.load([facts.witness("trminimizer.cc")] + [facts.REPO + "/internal/ceres/" + s for s in SRC])
    r = rng("c20")
    loc = loc_of(F, "ceres::internal::TrustRegionMinimizer", "Minimize")
    configs = [dict(n=n, scaling=s, nonmono=m, constrained=c, search=l, inner=i)
               for n, s, m, c, l, i in ((0, 1, 0, 0, 0, 0), (1, 1, 0, 0, 0, 0), (2, 1, 0, 0, 0, 0), (3, 1, 0, 0, 0, 0), (4, 1, 0, 0, 0, 0), (3, 0, 0, 0, 0, 0), (4, 1, 1, 0, 0, 0), (4, 1, 3, 0, 0, 0), (3, 1, 0, 1, 0, 0), (3, 1, 0, 1, 5, 0),
                                        (3, 0, 0, 1, 5, 0), (2, 1, 0, 0, 0, 1), (3, 1, 0, 0, 0, 1), (3, 1, 2, 1, 5, 1))]
    if THOROUGH:
        configs += [dict(n=n, scaling=s, nonmono=m, constrained=c, search=5 * c, inner=i) for n in (3, 5) for s in (0, 1) for m in (0, 2) for c in (0, 1) for i in (0, 1)]
    ld = lambda ip, v: ip.load(v) if isinstance(v, (Cell, LVal)) else v

    for cf in configs:
        for mi in ((2, 3) if cf["n"] == 3 and not cf["constrained"] and not cf["inner"] else (2,)):
            key = "%d iterations%s%s%s%s, %d invalid steps allowed" % (cf["n"], ", Jacobi scaling" if cf["scaling"] else "", ", %d nonmonotonic steps" % cf["nonmono"] if cf["nonmono"] else "",
                                                                      ", bounds%s" % (" with line search" if cf["search"] else "") if cf["constrained"] else "", ", inner iterations" if cf["inner"] else "", mi - 1)

            def go(cf=cf, mi=mi, key=key):
                ip = Interp(F, 8000000)
                c11.hooks(ip, NAMES)

                def inner(ip, recv, a, nd):
                    p = ld(ip, a[1])
                    cs = [ip.deref(p, const(i)) for i in range(2)]
                    xs = [ip.load(c) for c in cs]
                    for i, c in enumerate(cs):
                        ip.store(c, tm.uf("Inner", const(i), *xs))
                ip.hooks["ceres::internal::CoordinateDescentMinimizer::Minimize"] = inner

                def search(ip, recv, a, nd):
                    a = [ld(ip, v) for v in a]
                    fn_ = ip.load(ip.deref(ip.load(recv.f["fn"])))
                    pos = [c.v for c in fn_.f["position_"].v.cells()] + [c.v for c in fn_.f["direction_"].v.cells()]
                    s = ip.load(ip.deref(a[3]))
                    v = a[:3] + pos
                    ip.write(s.f["success"], tm.cmp("<", ZERO, tm.uf("LsOk", *v)))
                    ip.write(s.f["optimal_point"].v.f["x"], tm.uf("LsX", *v))
                ip.hooks["ceres::internal::LineSearch::Search"] = search

                def create(ip, recv, a, nd):
                    o = ip.load(a[1]) if isinstance(a[1], (Cell, LVal)) else a[1]
                    return Ptr(Region([Cell(Obj("w::FakeSearch", {"fn": Cell(o.f["function"].v)}))], "search"))
                ip.hooks["ceres::internal::LineSearch::Create"] = create
                n = cf["n"]
                x, log, out = array("x", 2), array("log", 20 * (n + 2), [ZERO] * (20 * (n + 2))), array("out", 9, [ZERO] * 9)
                ip.call(witness_fn(F, "w::", "Minimize"), [array("o", 11), const(n), const(mi), const(cf["scaling"]), const(cf["nonmono"]), const(cf["constrained"]), const(cf["search"]), const(cf["inner"]), x, log, out])
                inst = 0
                for what, f in problems(r):
                    p0 = [mp(r.num(-1, 1)) for _ in range(2)]
                    base = [M(0), M(0), M(0), M("0.05"), M(0), M(10), M(100), M(1), mp(r.num(0, 3)), M("0.02"), M("0.1")]
                    tr = []
                    a = (n, mi, cf["scaling"], cf["nonmono"], cf["constrained"], cf["search"], cf["inner"])
                    model(f, base, *a, list(p0), tr)
                    opts = [base]
                    for t in tr:
                        for k in (M("0.99"), M("1.01")):
                            o = list(base)
                            if t[0] == "p":
                                q = t[2]
                                o[1] = k * (-q + mpmath.sqrt(q * q + 4 * t[1])) / 2
                            elif t[0] in "grfdi":
                                if not mpmath.isfinite(t[1]) or abs(t[1]) > 10 ** 9:
                                    continue
                                o[{"g": 0, "r": 4, "f": 2, "d": 3, "i": 9}[t[0]]] = t[1] * k
                            opts.append(o)
                    for v in (M("0.99"), M("1"), M("1.01")):
                        o = list(base)
                        o[6] = v
                        opts.append(o)
                    limit = 40 if THOROUGH else 14
                    if len(opts) > limit:
                        opts = opts[:1] + [opts[i] for i in sorted(r.r.sample(range(1, len(opts)), limit - 1))]
                    for o in opts:
                        m = model(f, o, *a, list(p0))
                        user, types, cnt, rows = m
                        inst += 1
                        p = {"x0": p0[0], "x1": p0[1]}
                        p.update({"o%d" % i: v for i, v in enumerate(o)})
                        e = tm.Env(p, {k: v for k, v in f.items()})
                        txt = " (%s; %s)" % (what, ", ".join("%s %s" % (nm, mpmath.nstr(v, 5)) for nm, v in zip(OPT, o)))

                        def bad(what_, got, want):
                            C.violation(key, loc, "%s is %s where the documented loop gives %s%s" % (what_, fmt(got), fmt(want), txt))
                        t = int(e.ev(out.reg.cells[0].v))
                        if t not in types:
                            bad("termination type", TYPES[t], "/".join(TYPES[q] for q in sorted(types)))
                            return
                        want = [("parameter %d returned to the user" % i, x.reg.cells[i], user[i]) for i in range(2)]
                        if cnt["initial"] is not None:
                            want.append(("initial cost", out.reg.cells[3], cnt["initial"]))
                        if not (t == FAILURE and not rows):
                            want += [("number of %s" % nm, out.reg.cells[i], M(v)) for i, nm, v in ((1, "successful steps", cnt["ok"]), (2, "unsuccessful steps", cnt["bad"]), (4, "steps computed", cnt["calls"]), (5, "accepted steps", cnt["acc"]),
                                     (6, "rejected steps", cnt["rej"]), (7, "invalid steps", cnt["inv"]), (8, "inner iterations", cnt["inner"]))]
                        for i in range(n + 2):
                            w = rows[i] if i < len(rows) else None
                            if w is None:
                                want.append(("callback run for iteration %d" % i, log.reg.cells[20 * i + 17], M(0)))
                                continue
                            for c, nm in enumerate(COLS):
                                if nm == "eta" or w[nm] is None:
                                    continue
                                want.append(("%s of iteration %d" % (nm, i), log.reg.cells[20 * i + c], w[nm]))
                        for nm, cell, v in want:
                            g = e.ev(cell.v)
                            if not tm.close(g, v):
                                bad(nm, g, v)
                                return
                C.count("instances", inst)
                C.passed(key)
            guarded(C, key, go)
    C.assume = ["real arithmetic", "time limits are compared once per iteration with the preprocessing time (the clock itself stands still)"]
    return C
