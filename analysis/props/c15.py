"""C15: TinySolver's iteration."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
from props import c11
M = mpmath.mpf
RULE = ("value numbering of TinySolver::Solve unrolled to max_num_iterations 1..5 over uninterpreted residuals, Jacobian and linear solver, for fixed and dynamic sizes, fresh and reused objects: returned parameters, costs, gradient norm, "
        "iteration count, residuals and Jacobian terms == the Levenberg-Marquardt recurrence; status names a criterion that holds")
NAMES = ["GRADIENT_TOO_SMALL", "RELATIVE_STEP_SIZE_TOO_SMALL", "COST_TOO_SMALL", "HIT_MAX_ITERATIONS", "COST_CHANGE_TOO_SMALL"]


def solve2(m, g):
    a, b, c, d = m
    det = a * d - b * c
    return ((d * g[0] - b * g[1]) / det, (a * g[1] - c * g[0]) / det)


def model(fR, fJ, x, n, opt, trace=None):
    gt, pt, ft, ct, radius = opt
    r = [fR(i, *x) for i in range(3)]
    S = None

    def at(x):
        nonlocal S
        r = [fR(i, *x) for i in range(3)]
        j = [[fJ(i, c, *x) for c in range(2)] for i in range(3)]
        if S is None:
            S = [1 / (1 + mpmath.sqrt(sum(j[i][c] ** 2 for i in range(3)))) for c in range(2)]
        js = [[j[i][c] * S[c] for c in range(2)] for i in range(3)]
        H = [[sum(js[i][a] * js[i][b] for i in range(3)) for b in range(2)] for a in range(2)]
        g = [-sum(js[i][a] * r[i] for i in range(3)) for a in range(2)]
        return r, j, H, g, sum(v * v for v in r) / 2

    r, j, H, g, cost = at(x)
    out = dict(x=list(x), initial=cost, it=0)

    def done(status, it):
        out.update(x=list(x), final=cost, gn=max(abs(v) for v in g), it=it, status=status, r=r, j=j)
        return out

    def tests():
        return {k for k, v in ((0, max(abs(v) for v in g) < gt), (2, cost < ct)) if v}

    st = tests()
    if trace is not None:
        trace.append((max(abs(v) for v in g), None, cost, None))
    if st:
        return done(st, 0)
    u, v = 1 / radius, M(2)
    for it in range(1, n):
        D = [min(max(H[i][i], M("1e-6")), M("1e32")) for i in range(2)]
        lm = solve2((H[0][0] + u * D[0], H[0][1], H[1][0], H[1][1] + u * D[1]), g)
        dx = [lm[c] * S[c] for c in range(2)]
        sn = mpmath.sqrt(dx[0] ** 2 + dx[1] ** 2)
        xn = mpmath.sqrt(x[0] ** 2 + x[1] ** 2)
        if sn < pt * (xn + pt):
            return done({1}, it)
        nx = [x[c] + dx[c] for c in range(2)]
        nr = [fR(i, *nx) for i in range(3)]
        cc = 2 * cost - sum(q * q for q in nr)
        mc = sum(lm[a] * (2 * g[a] - sum(H[a][b] * lm[b] for b in range(2))) for a in range(2))
        rho = cc / mc
        small = {4} if abs(cc) < ft else set()
        if trace is not None:
            trace.append((None, sn, None, abs(cc)))
        if rho > 0:
            x = nx
            r, j, H, g, cost = at(x)
            if trace is not None:
                trace.append((max(abs(q) for q in g), None, cost, None))
            st = small | tests()
            if st:
                return done(st, it)
            t = 2 * rho - 1
            u *= max(M(1) / 3, 1 - t ** 3)
            v = M(2)
        else:
            if small:
                return done(small, it)
            u *= v
            v *= 2
    return done({3}, max(n, 1))


def run():
    C = Check("C15", RULE, floor=6)
    F = facts.load([facts.witness("tiny.cc")])
    r = rng("c15")
    loc = loc_of(F, "ceres::TinySolver", "Solve")

    def functions():
        """residual/Jacobian pairs that lead through acceptance, rejection, mixtures, and non-finite candidates"""
        sin, cos = mpmath.sin, mpmath.cos
        a = [[mp(r.num(-2, 2)) for _ in range(2)] for _ in range(3)]
        b = [mp(r.num(-2, 2)) for _ in range(3)]
        R = lambda i, x, y: a[i][0] * x + a[i][1] * y + b[i] + sin(x * y + i) / 5
        J = lambda i, c, x, y: a[i][c] + cos(x * y + i) * (y, x)[c] / 5
        yield "smooth", R, J
        yield "mildly wrong Jacobian", R, lambda i, c, x, y: J(i, c, x, y) * 2 + sin(i + c)
        yield "wrong Jacobian", R, lambda i, c, x, y: -J(i, c, x, y)
        yield "wiggly", lambda i, x, y: R(i, x, y) + 2 * sin(9 * x + 7 * y + i), lambda i, c, x, y: J(i, c, x, y) + 2 * cos(9 * x + 7 * y + i) * (9, 7)[c]
        # acceptance in a prescribed order: the n-th distinct point costs as listed
        for costs in ((4, 5, 3, 6, 2, 7), (4, 5, 6, 3, 7, 2), (4, 3, 5, 6, 2, 1)):
            def R2(i, x, y, costs=costs, seen=[]):
                q = next((n for n, (a_, b_) in enumerate(seen) if abs(a_ - x) + abs(b_ - y) < M("1e-15")), None)
                if q is None:
                    q = len(seen)
                    seen.append((x, y))
                return M(10 + i) * costs[q % 6]
            yield "ordered", R2, J
        yield "small column", lambda i, x, y: R(i, x, y / 10**5), lambda i, c, x, y: J(i, c, x, y / 10**5) / (1, 10**5)[c]
        yield "banana", lambda i, x, y: (10 * (y - x * x), 1 - x, M(0))[int(i)], lambda i, c, x, y: ((-20 * x, M(10)), (M(-1), M(0)), (M(0), M(0)))[int(i)][int(c)]
        yield "not a number away from the start", lambda i, x, y: R(i, x, y) if abs(x) + abs(y) < M("1.3") else mpmath.nan, J
        yield "infinite away from the start", lambda i, x, y: R(i, x, y) if abs(x) + abs(y) < M("1.3") else mpmath.inf, J

    for name in ("Fixed", "DynR", "DynP", "Dyn"):
        for n, again in itertools.product((0, 1, 2, 3, 4, 5), (False, True)):
            if (again and n not in (1, 3)) or (name != "Fixed" and n not in (0, 3)):
                continue
            key = "%s sizes, %d iterations, %s" % (name, n, "reused object" if again else "fresh object")

            def go(name=name, n=n, again=again, key=key):
                ip = Interp(F)
                c11.hooks(ip, ("R", "J", "Sol"))
                x, out = array("x", 2), array("out", 14, "uninit")
                ip.call(witness_fn(F, "w::", name), [x, array("y", 2) if again else NULL, const(n), array("o", 5), out])
                cells = out.reg.cells
                seen = set()
                for what, fR, fJ in functions():
                    for _ in range(2 if n < 4 else 1):
                        p = {"x0": mp(r.num(-1, 1)) / 2, "x1": mp(r.num(-1, 1)) / 2, "y0": mp(r.num(-1, 1)) / 3, "y1": mp(r.num(-1, 1)) / 3}
                        radius = M(10) ** r.r.randrange(-1, 5)
                        tr = []
                        model(fR, fJ, [p["x0"], p["x1"]], n, (M(0), M(0), M(0), M(0), radius), tr)
                        opts = [(M(0), M(0), M(0), M(0), radius), (M(10) ** 9, M(0), M(0), M(0), radius), (M(0), M(10) ** 9, M(0), M(0), radius), (M(0), M(0), M(0), M(10) ** 9, radius)]
                        for t in tr:
                            for k, v in enumerate(t):
                                if v is None or not mpmath.isfinite(v):
                                    continue
                                for f in (M("0.99"), M("1.01")):
                                    o = [M(0)] * 4 + [radius]
                                    if k == 1:         # relative step: v == t * (|x| + t) at the start
                                        q = mpmath.sqrt(p["x0"] ** 2 + p["x1"] ** 2)
                                        o[1] = f * (-q + mpmath.sqrt(q * q + 4 * v)) / 2
                                    else:
                                        o[{0: 0, 2: 3, 3: 2}[k]] = f * v
                                    opts.append(tuple(o))
                        for o in opts[:40]:
                            p.update({"o%d" % k: v for k, v in enumerate(o)})
                            e = tm.Env(p, {"R": lambda i, x, y: fR(int(i), x, y), "J": lambda i, c, x, y: fJ(int(i), int(c), x, y), "Sol": lambda i, a, b, c, d, g0, g1: solve2((a, b, c, d), (g0, g1))[int(i)]})
                            w = model(fR, fJ, [p["x0"], p["x1"]], n, o)
                            seen |= w["status"]

                            def val(c):
                                return e.ev(c.v) if isinstance(c.v, T) else None
                            want = [("parameter %d" % i, x.reg.cells[i], w["x"][i]) for i in range(2)]
                            want += [("initial cost", cells[0], w["initial"]), ("final cost", cells[1], w["final"]), ("gradient norm", cells[2], w["gn"]), ("iteration count", cells[3], M(w["it"]))]
                            want += [("residual %d" % i, cells[5 + i], w["r"][i]) for i in range(3)]
                            want += [("Jacobian entry (%d,%d)" % (i, c), cells[8 + 3 * c + i], w["j"][i][c]) for i in range(3) for c in range(2)]
                            for txt, cell, q in want:
                                g = val(cell)
                                if g is None or not tm.close(g, q):
                                    C.violation(key, loc, "%s after Solve is %s where %s belongs to the Levenberg-Marquardt recurrence (%s problem)" % (txt, fmt(g) if g is not None else "unset", fmt(q), what))
                                    return
                            st = val(cells[4])
                            if int(st) not in w["status"]:
                                C.violation(key, loc, "status %s although only %s holds (%s problem)" % (NAMES[int(st)], "/".join(NAMES[s] for s in sorted(w["status"])), what))
                                return
                C.count("statuses reached in " + key, len(seen))
                C.passed(key)
            guarded(C, key, go)
    C.assume = ["real arithmetic", "the linear solver solves its system (third-party factorization)", "the objective reports success"]
    return C
