"""C23: line search directions."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf
RULE = ("value numbering of NextDirection of every LineSearchDirection over sequences of states, curvature signs enumerated: the directions == -g, the Fletcher-Reeves, Polak-Ribiere and Hestenes-Stiefel formulas with restart, "
        "and the product form of BFGS over all (or the last max_lbfgs_rank) pairs whose curvature exceeds the secant tolerance")
TOL = M(10) ** -14


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def bfgs(H, s, y):
    """(I - rho s y') H (I - rho y s') + rho s s'"""
    n, rho = len(s), 1 / dot(s, y)
    V = [[M(i == j) - rho * y[i] * s[j] for j in range(n)] for i in range(n)]
    HV = [[sum(H[i][k] * V[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    return [[sum(V[k][i] * HV[k][j] for k in range(n)) + rho * s[i] * s[j] for j in range(n)] for i in range(n)]


def quasi(kind, rank, scaling, n, g, d, t):
    """[(direction, status)] after each step"""
    out, pairs = [], []
    for k in range(len(t)):
        s = [t[k] * v for v in d[k]]
        y = [a - b for a, b in zip(g[k + 1], g[k])]
        if dot(s, y) > TOL:
            pairs.append((s, y))
        used = pairs if kind == "BFGS" else pairs[-rank:]
        h0 = M(1)
        if scaling and used:
            s, y = used[0] if kind == "BFGS" else used[-1]
            h0 = dot(s, y) / dot(y, y)
        H = [[h0 * (i == j) for j in range(n)] for i in range(n)]
        for s, y in used:
            H = bfgs(H, s, y)
        q = [-dot(H[i], g[k + 1]) for i in range(n)]
        ok = dot(q, g[k + 1]) < 0
        out.append((q, ok))
        if not ok:
            break
    return out


def run():
    C = Check("C23", RULE, floor=25)
    F = facts.load([facts.witness("direction.cc")] + [facts.REPO + "/internal/ceres/" + s for s in ("line_search_direction.cc", "low_rank_inverse_hessian.cc", "linear_operator.cc")])
    r = rng("c23")
    fl = lambda lo, hi: M(r.r.uniform(lo, hi))
    fn = witness_fn(F, "w::", "Directions")

    def point(pattern, n, zero=False):
        """states whose curvatures fall in the given classes"""
        K = len(pattern)
        g = [[fl(-2, 2) for _ in range(n)]]
        d, t = [], []
        for k in range(K):
            d.append([fl(-2, 2) for _ in range(n)])
            t.append(fl(.1, 2))
            if zero and k == K - 1:
                q = [M(0)] * n
                y = [a - b for a, b in zip(q, g[k])]
                c = dot(y, d[k])
                if (c > 0) != (pattern[k] == "+"):
                    d[k] = [-v for v in d[k]]
            else:
                y = [fl(-2, 2) for _ in range(n)]
                s = [t[k] * v for v in d[k]]
                # the component of y along s sets the curvature
                c = {"+": fl(.3, 2), "-": -fl(.3, 2), "0": r.r.choice((M("5e-15"), M("9e-15"), M("1e-16"))), "s": r.r.choice((M("1.2e-14"), M("5e-14")))}[pattern[k]]
                if pattern[k] == "s":       # barely enough curvature, with a small gradient change
                    y = [M(10) ** -7 * v for v in y]
                a = (c - dot(s, y)) / dot(s, s)
                y = [p + a * q for p, q in zip(y, s)]
                if pattern[k] == "s":
                    d[k] = [v * M(10) ** -7 for v in d[k]]
                    y = [v * M(10) ** 7 for v in y]
                q = [a + b for a, b in zip(g[k], y)]
            g.append(q)
        return g, d, t

    def env(g, d, t):
        v = {}
        n = len(d[0])
        for k, q in enumerate(g):
            v.update({"g%d" % (n * k + i): x for i, x in enumerate(q)}, **{"m%d" % k: dot(q, q)})
        for k, q in enumerate(d):
            v.update({"d%d" % (n * k + i): x for i, x in enumerate(q)}, **{"t%d" % k: t[k]})
        return v

    def args(n, K):
        out, ok = array("out", n * K, "uninit"), array("ok", K, "uninit")
        return [array("g", n * (K + 1)), array("d", n * K), array("t", K), array("m", K + 1), out, ok], out, ok

    # --- steepest descent and conjugate gradients
    loc = loc_of(F, "ceres::internal::SteepestDescent", "NextDirection")
    locn = loc_of(F, "ceres::internal::NonlinearConjugateGradient", "NextDirection")
    for typ, nl, name in ((0, 0, "steepest descent"), (1, 0, "Fletcher-Reeves"), (1, 1, "Polak-Ribiere"), (1, 2, "Hestenes-Stiefel")):
        def simple(typ=typ, nl=nl, name=name):
            n, K = 3, 2
            ip = Interp(F, 2000000)
            a, out, ok = args(n, K)
            ip.call(fn, [const(typ), const(nl), const(3), const(1), const(n), const(K), tm.sym("tol")] + a)
            for _ in range(20 * NPTS):
                g, d, t = [[fl(-2, 2) for _ in range(n)] for _ in range(K + 1)], [[fl(-2, 2) for _ in range(n)] for _ in range(K)], [fl(0, 2) for _ in range(K)]
                tol = abs(fl(-1, 1)) * r.r.choice((1, 1, 0))
                v = env(g, d, t)
                for k in range(K):
                    q = [-x for x in g[k + 1]]
                    if typ:
                        y = [p - s for p, s in zip(g[k + 1], g[k])]
                        beta = (dot(g[k + 1], g[k + 1]) / dot(g[k], g[k]), dot(g[k + 1], y) / dot(g[k], g[k]), dot(g[k + 1], y) / dot(d[k], y))[nl]
                        c = [p + beta * s for p, s in zip(q, d[k])]
                        if dot(c, g[k + 1]) <= -tol:
                            q = c
                    e = tm.Env(dict(v, tol=tol))
                    got = [e.ev(out.reg.cells[n * k + i].v) for i in range(n)]
                    if e.ev(ok.reg.cells[k].v) != 1 or any(not tm.close(p, s) for p, s in zip(got, q)):
                        C.violation(name, locn if typ else loc, "direction %s, expected %s, for gradients %s then %s and previous direction %s, tolerance %s" % ([fmt(x) for x in got], [fmt(x) for x in q], [fmt(x) for x in g[k]], [fmt(x) for x in g[k + 1]], [fmt(x) for x in d[k]], fmt(tol)))
                        return
            C.passed(name)
        guarded(C, name, simple)

    # --- quasi-Newton
    pats = ["+", "-", "0", "s", "++", "-+", "+-", "+0", "0+", "+++", "+-+", "-++", "++0", "++s"] + (["+++-", "++++"] if not THOROUGH else ["++++", "+++-+", "+0+++", "++-+s", "+++++"])
    for kind, typ in (("BFGS", 2), ("L-BFGS", 3)):
        loc = loc_of(F, "ceres::internal::" + kind.replace("-", ""), "NextDirection")
        for pat in pats:
            for rank, scaling in itertools.product((0,) if kind == "BFGS" else (1, 2, 3), (0, 1)):
                for zero in (False, True):
                    if rank > max(1, pat.count("+") + pat.count("s")) or zero and (len(pat) > 2 or pat[-1] not in "+-" or rank > 1):
                        continue
                    if kind == "BFGS" and len(pat) > 3 and not THOROUGH:
                        continue
                    key = "%s%s%s, curvatures %s%s" % (kind, " of rank %d" % rank if rank else "", ", scaled" if scaling else "", " ".join({"+": "positive", "-": "negative", "0": "below tolerance", "s": "barely above tolerance"}[c] for c in pat), ", zero gradient at the end" if zero else "")

                    def qn(kind=kind, typ=typ, rank=rank, scaling=scaling, pat=pat, zero=zero, key=key, loc=loc):
                        n, K = 2, len(pat)
                        ip = Interp(F, 4000000)
                        a, out, ok = args(n, K)
                        tm.ORACLE = tm.generic(set("gdt"[i] + str(j) for i in range(3) for j in range(n * K + n)), [env(*point(pat, n, zero)) for _ in range(6)])
                        try:
                            ip.call(fn, [const(typ), const(0), const(rank), const(scaling), const(n), const(K), const(0)] + a)
                        finally:
                            tm.ORACLE = None
                        for _ in range(NPTS):
                            g, d, t = point(pat, n, zero)
                            e = tm.Env(env(g, d, t))
                            want = quasi(kind, rank, scaling, n, g, d, t)
                            for k, (q, w) in enumerate(want):
                                s = e.ev(ok.reg.cells[k].v)
                                if s != M(w):
                                    C.violation(key, loc, "NextDirection number %d returns %s, expected %s" % (k + 1, "true" if s else "false", "true" if w else "false"))
                                    return
                                got = [e.ev(out.reg.cells[n * k + i].v) for i in range(n)]
                                if w and any(not tm.close(p, s) for p, s in zip(got, q)):
                                    C.violation(key, loc, "direction %d is %s, expected %s, for gradients %s, previous directions %s, step sizes %s" % (k + 1, [fmt(x) for x in got], [fmt(x) for x in q], [[fmt(x) for x in y] for y in g], [[fmt(x) for x in y] for y in d], [fmt(x) for x in t]))
                                    return
                        C.passed(key)
                    guarded(C, key, qn)
    C.assume = ["real arithmetic", "conjugate gradients are fed gradients and directions for which the formula's denominator is not zero", "sequences of up to %d steps; curvature signs are enumerated, their magnitudes sampled" % max(len(p) for p in pats)]
    return C
