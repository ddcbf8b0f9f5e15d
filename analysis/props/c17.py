"""C17: Levenberg-Marquardt and dogleg strategies."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
from props import c11
M = mpmath.mpf
RULE = ("value numbering of LevenbergMarquardtStrategy and DoglegStrategy over enumerated sequences of compute/accept/reject/invalid/new-Jacobian with uninterpreted linear solver, symbolic Jacobian, residuals, options and step qualities: "
        "each step, status, radius, regularization handed to the linear solver and number of solves == the documented strategy")
SRC = ["levenberg_marquardt_strategy.cc", "dogleg_strategy.cc", "array_utils.cc", "sparse_matrix.cc", "linear_operator.cc", "polynomial.cc"]
COMPUTE, ACCEPT, REJECT, INVALID, SWITCH = range(5)
NAMES = ["compute", "accept", "reject", "invalid", "new Jacobian"]
SUCCESS, NOCONV, FAILURE, FATAL = range(4)


class World:
    def __init__(self, sol, term, fill):
        self.sol, self.term, self.fill = sol, term, fill

    def solve(self, call, d):
        t = self.term(call)
        x = [self.sol(i, call, *d) if self.fill(i, call) > 0 else None for i in range(2)]
        return t, x


def nrm2(v):
    return sum(x * x for x in v)


def bad(x):
    return any(v is None or mpmath.isnan(v) or mpmath.isinf(v) for v in x)


def colnorm2(J):
    return [sum(J[2 * i + c] ** 2 for i in range(3)) for c in range(2)]


def lm_model(W, opt, J, K, res, ops, q):
    radius, rmax, dmin, dmax = opt
    factor, reuse, D2, calls, d = M(2), False, None, 0, [M(0), M(0)]
    cur, out = J, []
    for k, op in enumerate(ops):
        z = [None] * 8
        if op == COMPUTE:
            if not reuse:
                D2 = [min(max(v, dmin), dmax) for v in colnorm2(cur)]
            reuse = True
            d = [mpmath.sqrt(v / radius) for v in D2]
            calls += 1
            t, x = W.solve(calls, d)
            if t in (SUCCESS, NOCONV):
                if bad(x):
                    t = FAILURE
                else:
                    z[0], z[1] = -x[0], -x[1]
            z[2] = M(t)
        elif op == ACCEPT:
            radius = min(rmax, radius / max(M(1) / 3, 1 - (2 * q[k] - 1) ** 3))
            factor, reuse = M(2), False
        elif op in (REJECT, INVALID):
            radius /= factor
            factor *= 2
            reuse = True
        else:
            cur = K
        z[3:8] = [radius, d[0], d[1], M(calls), M(1)]
        out.append(z)
    return out


def dogleg_model(W, opt, J, K, res, ops, q, seen=None):
    radius, rmax, dmin, dmax = opt
    mu, reuse, calls, d = M(1e-8), False, 0, [M(0), M(0)]
    cur, out, snorm = J, [], M(0)
    D = g = gn = alpha = None
    for k, op in enumerate(ops):
        z = [None] * 8
        if op == COMPUTE:
            t = SUCCESS
            if not reuse:
                reuse = True
                D = [mpmath.sqrt(min(max(v, dmin), dmax)) for v in colnorm2(cur)]
                g = [sum(cur[2 * i + c] * res[i] for i in range(3)) / D[c] for c in range(2)]
                sg = [g[c] / D[c] for c in range(2)]
                alpha = nrm2(g) / nrm2([cur[2 * i] * sg[0] + cur[2 * i + 1] * sg[1] for i in range(3)])
                t = FAILURE
                while mu < 1:
                    d = [D[c] * mpmath.sqrt(mu) for c in range(2)]
                    calls += 1
                    gn = [M('nan')] * 2
                    t, x = W.solve(calls, d)
                    if t == FATAL:
                        break
                    if t == FAILURE or bad(x):
                        t = FAILURE
                        mu *= 10
                        continue
                    gn = [-x[c] * D[c] for c in range(2)]
                    break
            if t in (SUCCESS, NOCONV):
                ng, nn = mpmath.sqrt(nrm2(g)), mpmath.sqrt(nrm2(gn))
                if nn <= radius:
                    s, snorm, case = gn, nn, 1
                elif alpha * ng >= radius:
                    s, snorm, case = [-radius / ng * v for v in g], radius, 2
                else:
                    a = [-alpha * v for v in g]
                    ba = [gn[c] - a[c] for c in range(2)]
                    A, B, Cc = nrm2(ba), a[0] * ba[0] + a[1] * ba[1], nrm2(a) - radius ** 2
                    beta = (-B + mpmath.sqrt(B * B - A * Cc)) / A
                    s, snorm, case = [a[c] + beta * ba[c] for c in range(2)], radius, 3
                if seen is not None:
                    seen.add(case)
                z[0], z[1] = s[0] / D[0], s[1] / D[1]
            z[2] = M(t)
        elif op == ACCEPT:
            if q[k] < M(1) / 4:
                radius /= 2
            if q[k] > M(3) / 4:
                radius = min(rmax, max(radius, 3 * snorm))
            mu = max(M(1e-8), 2 * mu / 10)
            reuse = False
        elif op == REJECT:
            radius /= 2
            reuse = True
        elif op == INVALID:
            mu *= 10
            reuse = False
        else:
            cur = K
        z[3] = radius
        if mu < 1 or calls:
            z[4:8] = [d[0], d[1], M(calls), M(1)]
        out.append(z)
    return out


FIELDS = ["first step component", "second step component", "termination", "radius", "first regularization entry", "second regularization entry", "number of linear solves", "matrix and right-hand side given to the solver"]
SEQ = [[0], [0, 1, 0], [0, 4, 1, 0], [0, 2, 0], [0, 4, 2, 0], [0, 2, 2, 0, 1, 0], [0, 2, 2, 2, 1, 2, 0], [0, 3, 0], [0, 1, 0, 1, 0], [0, 1, 0, 4, 2, 0, 1, 0], [0, 2, 0, 1, 0, 2, 0], [0, 3, 3, 0, 1, 0]]
FAULTS = ["none", "inexact", "failure of the first solve", "failure of the first three solves", "failure of every solve", "fatal error", "fatal error after a failure", "first component unfilled", "second component unfilled", "non-finite first component in the first solve", "non-finite second component in the second solve"]


def gram(m, sign):
    """orthonormal basis of the columns of a 2x2 matrix"""
    n = mpmath.sqrt(m[0] ** 2 + m[2] ** 2)
    a, b = m[0] / n, m[2] / n
    return [[sign * a, -b], [sign * b, a]]


def boundary_min(B, g, rad):
    """minimizer of x'Bx/2 + g'x on |x| = rad (rad small enough that the multiplier is positive)"""
    def nrm(y):
        a, b, c, d = B[0][0] + y, B[0][1], B[1][0], B[1][1] + y
        det = a * d - b * c
        x = [-(d * g[0] - b * g[1]) / det, -(a * g[1] - c * g[0]) / det]
        return x, mpmath.sqrt(nrm2(x))
    lo, hi = M(0), M(1)
    while nrm(hi)[1] > rad:
        hi *= 2
    for _ in range(150):
        mid = (lo + hi) / 2
        if nrm(mid)[1] > rad:
            lo = mid
        else:
            hi = mid
    return nrm(hi)[0]


def subspace(C, F, r):
    """the subspace variant in two dimensions, where the subspace is the whole space"""
    P = "ceres::internal::DoglegStrategy"
    for ops, rank, roots_ok in [([0], 2, True), ([0, 2, 0], 2, True), ([0, 1, 0], 2, True), ([0, 2, 2, 0, 1, 0], 2, True), ([0], 1, True), ([0, 2, 0], 1, True), ([0], 0, True), ([0], 2, False), ([0, 2, 0], 2, False)]:
        key = "subspace dogleg, rank %d%s: %s" % (rank, "" if roots_ok else ", root finding fails", ", ".join(NAMES[o] for o in ops))

        def go(ops=ops, rank=rank, roots_ok=roots_ok, key=key):
            n = len(ops)
            ip = Interp(F)
            ld = lambda ip, v: ip.load(v) if isinstance(v, (Cell, LVal)) else v
            ip.hooks["w::Term"] = lambda ip, recv, a, nd: ZERO
            ip.hooks["w::Fill"] = lambda ip, recv, a, nd: ONE
            ip.hooks["w::Sol"] = lambda ip, recv, a, nd: tm.uf("Sol", *[ld(ip, v) for v in a])
            ip.dechook = {"rank": lambda ip, d, a: const(rank),
                          "householderQ": lambda ip, d, a: ip.matfrom([[tm.uf("Q%d%d" % (i, j), *[c for q in d.m.vals() for c in q]) for j in range(2)] for i in range(2)])}

            def roots(ip, recv, a, nd):
                p = [ld(ip, x) for x in a]
                if not roots_ok:
                    return FALSE
                co = [c.v for c in p[0].cells()]
                real = ip.load(ip.deref(p[1]))
                ip.resize(real, len(co) - 1, 1)
                for k, c in enumerate(real.cells()):
                    ip.write(c, tm.uf("Root%d" % k, *co))
                return TRUE
            ip.hooks["ceres::internal::FindPolynomialRoots"] = roots
            out = array("out", 8 * n, "uninit")
            ip.call(witness_fn(F, "w::", "Strategy"), [const(2), array("opt", 4), array("j", 6), array("k", 6), array("r", 3), Ptr(Region([Cell(const(v)) for v in ops], "ops")), const(n), array("q", n), out])
            for t in range(NPTS * 2):
                p = {}
                J = [mp(r.num(-2, 2)) for _ in range(6)]
                if rank < 2:           # orthogonal columns: gradient and Gauss-Newton direction coincide
                    a, b = mp(r.num(1, 3)), mp(r.num(1, 3))
                    J = [a, -b, b, a, M(0), M(0)]
                R = [mp(r.num(-1, 1)) for _ in range(3)]
                for i in range(6):
                    p["j%d" % i] = p["k%d" % i] = J[i]
                for i in range(3):
                    p["r%d" % i] = R[i]
                for i in range(n):
                    p["q%d" % i] = abs(mp(r.num(0, 12))) / 10 + M("0.01")
                D = [mpmath.sqrt(v) for v in colnorm2(J)]
                H = [[sum(J[2 * i + a] * J[2 * i + b] for i in range(3)) for b in range(2)] for a in range(2)]
                g0 = [sum(J[2 * i + a] * R[i] for i in range(3)) for a in range(2)]
                det = H[0][0] * H[1][1] - H[0][1] * H[1][0]
                x = [(H[1][1] * g0[0] - H[0][1] * g0[1]) / det, (H[0][0] * g0[1] - H[1][0] * g0[0]) / det]
                gnn = mpmath.sqrt(nrm2([x[c] * D[c] for c in range(2)]))
                p["opt0"] = gnn * (1 + abs(mp(r.num(1, 20))) / 10 if t % 4 == 0 else mp(r.num(2, 90)) / 100)
                p["opt1"], p["opt2"], p["opt3"] = M(10) ** 16, M("1e-12"), M("1e32")
                fns = {"Sol": lambda i, c, *d: x[int(i)]}
                for i in range(2):
                    for j in range(2):
                        fns["Q%d%d" % (i, j)] = lambda *m, i=i, j=j: gram(m, 1 if t % 2 else -1)[i][j]
                for k in range(4):
                    fns["Root%d" % k] = lambda *co, k=k: mpmath.re(mpmath.polyroots(list(co), maxsteps=500, extraprec=400)[k])
                e = tm.Env(p, fns)
                W = World(lambda i, c, *d: x[i], lambda c: SUCCESS, lambda i, c: 1)
                # radius, regularization and solves evolve as in the traditional variant; only the step differs
                radius, snorm, reuse, calls = p["opt0"], M(0), False, 0
                g = [g0[c] / D[c] for c in range(2)]
                B = [[H[a][b] / D[a] / D[b] for b in range(2)] for a in range(2)]
                gn = [-x[c] * D[c] for c in range(2)]
                trad = dogleg_model(W, [p["opt%d" % i] for i in range(4)], J, J, R, ops, [p["q%d" % i] for i in range(n)])
                for i, op in enumerate(ops):
                    want = {}
                    if op == COMPUTE:
                        calls += not reuse
                        reuse = True
                        if gnn <= radius:
                            s, snorm = gn, gnn
                        elif rank == 1:
                            s, snorm = [-radius / mpmath.sqrt(nrm2(g)) * v for v in g], radius
                        elif not roots_ok:
                            s, snorm = [trad[i][c] * D[c] for c in range(2)], radius
                        else:
                            s, snorm = boundary_min(B, g, radius), radius
                        want = {2: M(SUCCESS), 0: s[0] / D[0], 1: s[1] / D[1], 6: M(calls)} if rank else {2: M(FAILURE)}
                    elif op == REJECT:
                        radius /= 2
                        reuse = True
                    elif op == ACCEPT:
                        q = p["q%d" % i]
                        radius = radius / 2 if q < M(1) / 4 else min(p["opt1"], max(radius, 3 * snorm)) if q > M(3) / 4 else radius
                        reuse = False
                    want[3] = radius
                    for f, wv in want.items():
                        v = out.reg.cells[8 * i + f].v
                        if not isinstance(v, T) or not tm.close(e.ev(v), wv, M("1e-9")):
                            C.violation(key, loc_of(F, P, "ComputeSubspaceDoglegStep"), "%s after operation %d (%s) is %s where the model minimizer within the trust region gives %s; radius %s, Jacobian %s, residuals %s" % (
                                FIELDS[f], i, NAMES[op], fmt(e.ev(v)) if isinstance(v, T) else "not set", fmt(wv), fmt(radius), [fmt(v) for v in J], [fmt(v) for v in R]))
                            return
            C.passed(key)
            C.count("sequences")
        guarded(C, key, go)


def run():
    C = Check("C17", RULE, floor=28)
    F = facts.load([facts.witness("strategy.cc")] + [os.path.join(facts.REPO, "internal/ceres/" + f) for f in SRC])
    r = rng("c17")
    tm.PLAIN.add("u:Sol")
    tm.BROKEN.add("u:Bad")
    N = NPTS * 3
    for kind, (cls, mod) in enumerate((("LevenbergMarquardtStrategy", lm_model), ("DoglegStrategy", dogleg_model))):
        P = "ceres::internal::" + cls
        seen = set()
        for ops in SEQ if not THOROUGH else SEQ + [[0, 1] * 3 + [0], [0, 2, 4, 0, 1, 0, 2, 0]]:
            key = "%s: %s" % (cls, ", ".join(NAMES[o] for o in ops))

            def go(kind=kind, ops=ops, key=key, P=P, mod=mod, cls=cls, seen=seen):
                n = len(ops)
                for fault in range(len(FAULTS)):
                    ft = {2: {1: FAILURE}, 3: {1: FAILURE, 2: FAILURE, 3: FAILURE}, 5: {1: FATAL}, 6: {1: FAILURE, 2: FATAL}}.get(fault, {})
                    term = lambda c, *d: FAILURE if fault == 4 else ft.get(int(c), NOCONV if fault == 1 else SUCCESS)
                    fill = lambda i, c: 0 if fault in (7, 8) and i == fault - 7 and c == 1 else 1
                    nonfin = lambda i, c: fault in (9, 10) and i == fault - 9 and c == fault - 8
                    ip = Interp(F)
                    cv = lambda ip, a: int(tm.cval(ip.load(a) if isinstance(a, (Cell, LVal)) else a))
                    ip.hooks["w::Term"] = lambda ip, recv, a, nd: const(term(cv(ip, a[0])))
                    ip.hooks["w::Fill"] = lambda ip, recv, a, nd: const(fill(cv(ip, a[0]), cv(ip, a[1])))
                    ip.hooks["w::Sol"] = lambda ip, recv, a, nd: tm.uf("Bad" if nonfin(cv(ip, a[0]), cv(ip, a[1])) else "Sol", *[ip.load(v) if isinstance(v, (Cell, LVal)) else v for v in a])
                    out = array("out", 8 * n, "uninit")
                    try:
                        ip.call(witness_fn(F, "w::", "Strategy"), [const(kind), array("opt", 4), array("j", 6), array("k", 6), array("r", 3), Ptr(Region([Cell(const(v)) for v in ops], "ops")), const(n), array("q", n), out])
                    except UninitRead as ex:
                        if fault not in (7, 8):
                            raise
                        C.violation(key, loc_of(F, P, "ComputeStep"), "an entry the linear solver left unfilled is used: " + str(ex))
                        return
                    for t in range(N if fault == 0 else N // 3):
                        p = {}
                        for i in range(6):
                            p["j%d" % i], p["k%d" % i] = mp(r.num(-2, 2)), mp(r.num(-2, 2))
                        for i in range(3):
                            p["r%d" % i] = mp(r.num(-1, 1))
                        for i in range(n):
                            p["q%d" % i] = abs(mp(r.num(0, 12))) / 10 + M("0.01")
                        p["opt0"] = M(10) ** (mp(r.num(-30, 20)) / 10)
                        p["opt1"] = p["opt0"] * (1 + abs(mp(r.num(0, 20))) / 10) if t % 3 else M(10) ** 16
                        p["opt2"] = M("1e-6") if t % 3 else mp(r.num(1, 30)) / 10
                        p["opt3"] = max(p["opt2"], M("1e32") if t % 5 else mp(r.num(20, 60)) / 10)
                        seedv = mp(r.num(-3, 3))
                        sol = lambda i, c, d0, d1: mpmath.sin(seedv + 3 * c + i) + (d0 if i else d1) / 7
                        e = tm.Env(p, {"Sol": sol, "Bad": lambda *a: M("nan") if t % 2 else M("inf")})
                        W = World(lambda i, c, d0, d1: M("nan") if nonfin(i, c) else sol(i, c, d0, d1), term, fill)
                        args = [W, [p["opt%d" % i] for i in range(4)], [p["j%d" % i] for i in range(6)], [p["k%d" % i] for i in range(6)], [p["r%d" % i] for i in range(3)], ops, [p["q%d" % i] for i in range(n)]]
                        want = mod(*args) if not kind else mod(*args, seen)
                        for i in range(n):
                            ft_ = want[i][2]
                            for f in range(8):
                                if want[i][f] is None or kind and fault == 4 and f in (4, 5, 6):
                                    continue
                                v = out.reg.cells[8 * i + f].v
                                if not isinstance(v, T):
                                    C.violation(key, loc_of(F, P, "ComputeStep"), "%s after operation %d is not set" % (FIELDS[f], i))
                                    return
                                if not tm.close(e.ev(v), want[i][f]):
                                    C.violation(key, loc_of(F, P, "ComputeStep" if ops[i] in (0, 4) else ("StepAccepted", "StepRejected", "StepIsInvalid")[ops[i] - 1] if kind or ops[i] < 3 else "StepRejected"),
                                                "%s after operation %d (%s) is %s where the strategy gives %s; linear solver: %s; radius %s, limit %s, quality %s" % (
                                        FIELDS[f], i, NAMES[ops[i]], fmt(e.ev(v)), fmt(want[i][f]), FAULTS[fault], fmt(p["opt0"]), fmt(p["opt1"]), fmt(p["q%d" % i])))
                                    return
                            if ft_ is not None and ft_ >= FAILURE and i + 1 < n and (ft_ == FATAL or ops[i + 1] != INVALID):
                                break                # after a failed step the minimizer only calls StepIsInvalid
                C.passed(key)
                C.count("sequences")
                C.count("fault scenarios", len(FAULTS))
                C.sample("%s: %d fault scenarios" % (key, len(FAULTS)))
            guarded(C, key, go)
        if kind and {1, 2, 3} - seen:
            C.undecided("dogleg cases", "only %s sampled" % seen)
    subspace(C, F, r)
    C.assume = ["real arithmetic", "the third-party orthogonalization and eigenvalue routines do what they document (orthonormal basis and rank; roots of the quartic)"]
    return C
