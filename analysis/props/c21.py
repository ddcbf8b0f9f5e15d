"""C21: polynomials of the line searches and the dogleg strategy."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf
RULE = ("value numbering of FindPolynomialRoots, EvaluatePolynomial, DifferentiatePolynomial, MinimizePolynomial, FindInterpolatingPolynomial and MinimizeInterpolatingPolynomial over symbolic coefficients and samples: "
        "every root (with multiplicity), derivative, global minimum over the interval and interpolation condition")


def polyval(p, x):
    return mpmath.polyval(p, x)


def roots(p):
    """all complex roots, by multiplicity; p[0] != 0"""
    p = [M(v) for v in p]
    z = 0
    while len(p) > 1 and p[-1] == 0:
        p.pop()
        z += 1
    r = []
    if len(p) == 2:
        r = [mpmath.mpc(-p[1] / p[0])]
    elif len(p) == 3:
        s = mpmath.sqrt(mpmath.mpc(p[1] * p[1] - 4 * p[0] * p[2]))
        r = [(-p[1] + s) / (2 * p[0]), (-p[1] - s) / (2 * p[0])]
    elif len(p) > 3:
        r = mpmath.polyroots(p, maxsteps=500, extraprec=200)
    return [mpmath.mpc(v) for v in r] + [mpmath.mpc(0)] * z


def minimum(p, lo, hi, extra=()):
    """smallest value of the polynomial on [lo, hi]"""
    xs = [lo, hi] + [x for x in extra if lo <= x <= hi]
    d = [v * (len(p) - 1 - i) for i, v in enumerate(p[:-1])]
    while d and d[0] == 0:
        d = d[1:]
    if len(d) > 1:
        xs += [z.real for z in roots(d) if abs(z.imag) < M(10) ** -15 and lo <= z.real <= hi]
    return min(polyval(p, x) for x in xs)


def eig(k, n, *a):
    m = mpmath.matrix(n, n)
    for i in range(n):
        for j in range(n):
            m[i, j] = a[i * n + j]
    e = sorted([mpmath.mpc(v) for v in mpmath.eig(m, left=False, right=False)], key=lambda z: (mpmath.nint(z.real * 10 ** 12), z.imag))
    return e[int(k)]


FN = {"EigRe": lambda k, n, *a: eig(k, int(n), *a).real, "EigIm": lambda k, n, *a: eig(k, int(n), *a).imag}


def engine(F):
    ip = Interp(F)
    for q in list(F.fns.values()):
        if q.n == "BalanceCompanionMatrix":       # a similarity transformation: the same eigenvalues
            ip.hooks[q.q] = lambda ip, recv, a, nd: None

    def ev(ip, d, a):
        m = d.m
        v = [c for r in m.vals() for c in r]
        part = lambda nm: lambda ip, a, nd: ip.matfrom([[tm.uf(nm, const(k), const(m.r), *v)] for k in range(m.r)])
        return Opaque("eigenvalues", {"real": part("EigRe"), "imag": part("EigIm")})
    ip.dechook = {("EigenSolver", "eigenvalues"): ev}
    return ip


class assume:
    """the leading coefficients are not zero"""

    def __init__(self, names):
        self.names = set(names)

    def __enter__(self):
        tm.ORACLE = tm.generic(self.names, [{n: v for n in self.names} for v in ("0.7", "-1.3", "2.1", "-0.01", "55")])

    def __exit__(self, *a):
        tm.ORACLE = None


def near(a, b, tol=M(10) ** -12):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def run():
    C = Check("C21", RULE, floor=15)
    F = facts.load([facts.witness("linesearch.cc")] + [facts.REPO + "/internal/ceres/" + s for s in ("polynomial.cc", "function_sample.cc")])
    r = rng("c21")
    L = {n: loc_of(F, "ceres::internal::", n) for n in ("FindPolynomialRoots", "EvaluatePolynomial", "DifferentiatePolynomial", "MinimizePolynomial", "FindInterpolatingPolynomial", "MinimizeInterpolatingPolynomial")}
    W = {n: witness_fn(F, "w::", n) for n in ("Roots", "Value", "Min", "Interpolate", "MinInterp")}
    num = lambda: M(r.r.choice((0, 1, -1))) if r.r.random() < .15 else M(r.r.randint(-4000, 4000)) / 1000
    nz = lambda: (M(r.r.randint(1, 4000)) / 1000) * r.r.choice((1, -1))

    def coeffs(n):
        """coefficients with a nonzero leading one: generic, with multiple or zero roots, with complex roots"""
        if n > 1 and r.r.random() < .6:
            p = [nz()]
            left = n - 1
            seen = [M(0)]
            while left:
                if left > 1 and r.r.random() < .3:
                    a, b = num(), nz()
                    f = [M(1), -2 * a, a * a + b * b]
                    left -= 2
                else:
                    x = r.r.choice(seen) if r.r.random() < .3 and n <= 3 else M(r.r.randint(-16, 16)) / 4
                    if n > 3 and any(near(x, y) for y in seen[1:]):
                        continue
                    seen.append(x)
                    f = [M(1), -x]
                    left -= 1
                q = [M(0)] * (len(p) + len(f) - 1)
                for i, u in enumerate(p):
                    for j, v in enumerate(f):
                        q[i + j] += u * v
                p = q
            return p
        return [nz()] + [num() for _ in range(n - 1)]

    deg = (0, 1, 2, 3, 4) if not THOROUGH else (0, 1, 2, 3, 4, 5)
    for d, zeros, which in itertools.product(deg, (0, 1, 2), (0, 1, 2, 3)):
        key = "roots of a degree %d polynomial%s, %s" % (d, " with %d leading zeros" % zeros if zeros else "", {0: "no output", 1: "real parts", 2: "imaginary parts", 3: "real and imaginary parts"}[which])

        def go(d=d, zeros=zeros, which=which, key=key):
            ip = engine(F)
            p = Ptr(Region([Cell(ZERO) for _ in range(zeros)] + [Cell(tm.sym("p%d" % i)) for i in range(d + 1)], "p"))
            ok, re_, im = array("ok", 3, "uninit"), array("re", 8, "uninit"), array("im", 8, "uninit")
            with assume(["p0"]):
                ip.call(W["Roots"], [p, const(d + 1 + zeros), const(which), ok, re_, im])
            no, nr, ni = [c.v for c in ok.reg.cells]
            if not tm.isc(nr) or not tm.isc(ni):
                raise Unsupported("number of roots not constant")
            nr, ni = int(tm.cval(nr)), int(tm.cval(ni))
            if (nr, ni) != (d if which & 1 else 0, d if which & 2 else 0):
                C.violation(key, L["FindPolynomialRoots"], "returns %d real and %d imaginary parts, the polynomial has %d roots" % (nr, ni, d))
                return
            for nm, a_, w in (("real", re_, 1), ("imaginary", im, 2)):
                if which & w and any(a_.reg.cells[i].v is UNINIT for i in range(d)):
                    C.violation(key, L["FindPolynomialRoots"], "the %s parts are never written" % nm)
                    return
            for k in range(6 * NPTS):
                pv = coeffs(d + 1)
                e = tm.Env({"p%d" % i: v for i, v in enumerate(pv)}, FN)
                if e.ev(no) != 1:
                    C.violation(key, L["FindPolynomialRoots"], "fails for the coefficients %s" % [fmt(v) for v in pv])
                    return
                a = [e.ev(re_.reg.cells[i].v) if which & 1 else M(0) for i in range(d)]
                b = [e.ev(im.reg.cells[i].v) if which & 2 else M(0) for i in range(d)]
                want = [mpmath.mpc(z.real if which & 1 else 0, z.imag if which & 2 else 0) for z in roots(pv)]
                for x, y in zip(a, b) if which else ():
                    m = min(want, key=lambda w: abs(w - mpmath.mpc(x, y))) if mpmath.isfinite(x) and mpmath.isfinite(y) else None
                    if m is None or not abs(m - mpmath.mpc(x, y)) <= M(10) ** (-12 if d < 3 else -6) * (1 + abs(m)):
                        C.violation(key, L["FindPolynomialRoots"], "the coefficients %s give a root %s%s, but the roots are %s" % (
                            [fmt(v) for v in pv], fmt(x) if which & 1 else "", " + %s i" % fmt(y) if which & 2 else "", ", ".join(fmt(z) for z in roots(pv))))
                        return
                    want.remove(m)
            C.passed(key)
        guarded(C, key, go)

    key = "a polynomial of size zero is rejected"

    def empty():
        ip = engine(F)
        ok = array("ok", 3, "uninit")
        ip.call(W["Roots"], [array("p", 0), ZERO, const(3), ok, array("re", 1, "uninit"), array("im", 1, "uninit")])
        if tm.Env({}).ev(ok.reg.cells[0].v) != 0:
            C.violation(key, L["FindPolynomialRoots"], "FindPolynomialRoots returns true for a polynomial without coefficients")
        else:
            C.passed(key)
    guarded(C, key, empty)

    for n in range(1, 7):
        key = "value and derivative, %d coefficients" % n

        def val(n=n, key=key):
            ip = engine(F)
            out = array("out", n + 3, "uninit")
            ip.call(W["Value"], [array("p", n), const(n), tm.sym("x"), out])
            o = [c.v for c in out.reg.cells]
            if not tm.isc(o[1]) or int(tm.cval(o[1])) != max(n - 1, 1):
                C.violation(key, L["DifferentiatePolynomial"], "the derivative has %s coefficients instead of %d" % (tm.show(o[1]), max(n - 1, 1)))
                return
            for k in range(NPTS):
                pv, x = [num() for _ in range(n)], num()
                e = tm.Env(dict({"p%d" % i: v for i, v in enumerate(pv)}, x=x), FN)
                if not near(e.ev(o[0]), polyval(pv, x)):
                    C.violation(key, L["EvaluatePolynomial"], "the polynomial %s at %s is %s instead of %s" % ([fmt(v) for v in pv], fmt(x), fmt(e.ev(o[0])), fmt(polyval(pv, x))))
                    return
                want = [pv[i] * (n - 1 - i) for i in range(n - 1)] or [M(0)]
                got = [e.ev(v) for v in o[2:2 + len(want)]]
                if any(not near(a, b) for a, b in zip(got, want)):
                    C.violation(key, L["DifferentiatePolynomial"], "the derivative of %s is %s instead of %s" % ([fmt(v) for v in pv], [fmt(v) for v in got], [fmt(v) for v in want]))
                    return
            C.passed(key)
        guarded(C, key, val)

    def judge(key, where, e, ox, ov, p, lo, hi, extra=()):
        x, v = e.ev(ox), e.ev(ov)
        best = minimum(p, lo, hi, extra)
        t = "the polynomial %s on [%s, %s] gives x = %s with value %s" % ([fmt(q) for q in p], fmt(lo), fmt(hi), fmt(x), fmt(v))
        eps = M(10) ** -8
        if not lo - eps <= x <= hi + eps:
            C.violation(key, where, t + ", outside the interval")
        elif not near(polyval(p, x), v, eps):
            C.violation(key, where, t + ", but the polynomial is %s there" % fmt(polyval(p, x)))
        elif not near(v, best, eps):
            C.violation(key, where, t + ", but its minimum on the interval is %s" % fmt(best))
        else:
            return True
        return False

    def interval():
        a = [num(), num()]
        a.sort()
        return a

    for n in (1, 2, 3, 4, 5):
        key = "minimum over an interval, %d coefficients" % n

        def mini(n=n, key=key):
            ip = engine(F)
            out = array("out", 2, "uninit")
            with assume(["p0"]):
                ip.call(W["Min"], [array("p", n), const(n), tm.sym("lo"), tm.sym("hi"), out])
            for k in range(8 * NPTS):
                # either the polynomial or its derivative has chosen roots
                pv = coeffs(n) if k % 2 else [v / (n - 1 - i) for i, v in enumerate(coeffs(n - 1))] + [num()] if n > 1 else [num()]
                lo, hi = interval()
                e = tm.Env(dict({"p%d" % i: v for i, v in enumerate(pv)}, lo=lo, hi=hi), FN)
                if not judge(key, L["MinimizePolynomial"], e, out.reg.cells[0].v, out.reg.cells[1].v, pv, lo, hi):
                    return
            C.passed(key)
        guarded(C, key, mini)

    def flags():
        for n in (1, 2, 3):
            for f in itertools.product((0, 1), repeat=2 * n):
                k = sum(f)
                # Hermite interpolation needs a value wherever a gradient is given (and one value at all)
                if 1 <= k <= 5 and all(f[2 * i] or not f[2 * i + 1] for i in range(n)):
                    yield n, f
    fl = list(flags())
    for n, f in fl:
        key = "interpolation of %s" % ", ".join(["nothing", "gradient", "value", "value and gradient"][2 * f[2 * i] + f[2 * i + 1]] for i in range(n))
        k = sum(f)
        iv = Ptr(Region([Cell(const(v)) for v in f], "valid"))

        def points():
            xs = []
            while len(xs) < n:
                x = M(r.r.randint(-300, 300)) / 100
                if all(abs(x - y) > M("0.2") for y in xs):
                    xs.append(x)
            q = coeffs(k) if r.r.random() < .5 else [v / (k - 1 - i) for i, v in enumerate(coeffs(k - 1))] + [num()] if k > 1 else [num()]
            d = {}
            for i, x in enumerate(xs):
                dq = [v * (k - 1 - j) for j, v in enumerate(q[:-1])]
                d.update({"s%d" % (3 * i): x, "s%d" % (3 * i + 1): polyval(q, x), "s%d" % (3 * i + 2): polyval(dq, x) if dq else M(0)})
                for j in (1, 2):
                    if not f[2 * i + j - 1]:
                        d["s%d" % (3 * i + j)] = num() * 1000
            return q, xs, d

        def interp(n=n, f=f, key=key, k=k):
            ip = engine(F)
            out = array("out", 8, "uninit")
            ip.call(W["Interpolate"], [array("s", 3 * n), iv, const(n), out])
            o = [c.v for c in out.reg.cells]
            if not tm.isc(o[0]) or int(tm.cval(o[0])) != k:
                C.violation(key, L["FindInterpolatingPolynomial"], "the polynomial has %s coefficients for %d conditions" % (tm.show(o[0]), k))
                return
            for _ in range(NPTS):
                q, xs, d = points()
                e = tm.Env(d, FN)
                got = [e.ev(v) for v in o[1:1 + k]]
                if any(not near(a, b, M(10) ** -8) for a, b in zip(got, q)):
                    C.violation(key, L["FindInterpolatingPolynomial"], "samples of the polynomial %s at %s give %s" % ([fmt(v) for v in q], [fmt(v) for v in xs], [fmt(v) for v in got]))
                    return
            C.passed(key)
        guarded(C, key, interp)

        def mininterp(n=n, f=f, key="minimum of the " + key, k=k):
            ip = engine(F)
            ip.hooks["ceres::internal::FindInterpolatingPolynomial"] = lambda ip, recv, a, nd: ip.matfrom([[tm.sym("q%d" % i)] for i in range(k)])
            out = array("out", 2, "uninit")
            with assume(["q0"]):
                ip.call(W["MinInterp"], [array("s", 3 * n), iv, const(n), tm.sym("lo"), tm.sym("hi"), out])
            for _ in range(2 * NPTS):
                q, xs, d = points()
                lo, hi = interval()
                d.update({"q%d" % i: v for i, v in enumerate(q)}, lo=lo, hi=hi)
                if not judge(key, L["MinimizeInterpolatingPolynomial"], tm.Env(d, FN), out.reg.cells[0].v, out.reg.cells[1].v, q, lo, hi, xs):
                    return
            C.passed(key)
        if k in (2, 3, 4):
            guarded(C, "minimum of the " + key, mininterp)
    C.assume = ["real arithmetic", "Eigen's LU solve and companion-matrix eigenvalues are exact; balancing is a similarity transformation", "leading coefficients after leading zeros are nonzero", "sampled coefficients: the terms are derived once for all of them"]
    return C
