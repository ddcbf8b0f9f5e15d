"""C07: cubic and bicubic interpolation."""
from alg import *
import facts
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf

RULE = ("value numbering of the interpolators over an uninterpreted grid (each grid value is an unknown function of the index term): value term == the documented cubic "
        "convolution of the documented neighbours, derivative terms == its derivatives, dual-number overloads == the chain rule; grid lookups == the documented element for every clamped index")


def spline(p0, p1, p2, p3, t):
    f = (2 * p1 + (-p0 + p2) * t + (2 * p0 - 5 * p1 + 4 * p2 - p3) * t ** 2 + (-p0 + 3 * p1 - 3 * p2 + p3) * t ** 3) / 2
    d = ((-p0 + p2) + 2 * (2 * p0 - 5 * p1 + 4 * p2 - p3) * t + 3 * (-p0 + 3 * p1 - 3 * p2 + p3) * t ** 2) / 2
    return f, d


def g1(i):
    return lambda n: mpmath.sin(n * M("1.7") + i * M("0.9")) * 3 + M(i) / 3


def g2(i):
    return lambda r, c: mpmath.sin(r * M("1.7") + i * M("0.9")) * 3 * mpmath.cos(c * M("0.77")) + M(i) / 3 + c * r * M("0.1")


FNS = {"g1_0": g1(0), "g1_1": g1(1), "g2_0": g2(0), "g2_1": g2(1)}


def ref1(i, x):
    n = mpmath.floor(x)
    g = g1(i)
    return spline(g(n - 1), g(n), g(n + 1), g(n + 2), x - n)


def ref2(i, r, c):
    n, m = mpmath.floor(r), mpmath.floor(c)
    g = g2(i)
    rows = [spline(*[g(n + k, m + j) for j in (-1, 0, 1, 2)], c - m) for k in (-1, 0, 1, 2)]
    f, dr = spline(*[q[0] for q in rows], r - n)
    dc, _ = spline(*[q[1] for q in rows], r - n)
    return f, dr, dc


def run():
    C = Check("C07", RULE, floor=60)
    F = facts.load([facts.witness("cubic.cc")])

    def getv(name, nargs):
        def h(ip, recv, args, n):
            idx = [ip.load(a) if isinstance(a, (Cell, LVal)) else a for a in args]
            for i in range(2):
                ip.store(ip.deref(idx[-1], const(i)), tm.uf("%s_%d" % (name, i), *idx[:-1]))
            return None
        return h
    grid = Obj("w::G1"), Obj("w::G2")

    def mk():
        ip = Interp(F)
        ip.hooks["w::G1::GetValue"] = getv("g1", 1)
        ip.hooks["w::G2::GetValue"] = getv("g2", 2)
        return ip
    r = rng("c07")
    xs = [mp(r.num(-5, 5)) for _ in range(NPTS * 2)] + [M(0), M(3), M(-2), M("-0.25"), M("1e-9"), M("-1e-9")]

    def evs(outs, p):
        e = tm.Env(p, FNS)
        return [e.ev(t) for t in outs]

    def judge(key, loc, outs, want, pts):
        """outs: list of terms; want(p) -> list of values"""
        if any(not isinstance(t, T) for t in outs):
            return C.violation(key, loc, "an output is not written")
        for p in pts:
            g, w_ = evs(outs, p), want(p)
            for k, (a, b) in enumerate(zip(g, w_)):
                if not tm.close(a, b, M("1e-12")):
                    return C.violation(key, loc, "output %d is %s, expected %s at %s" % (k, fmt(a), fmt(b), ", ".join("%s=%s" % (q, fmt(v)) for q, v in p.items())))
        C.passed(key)
    L1 = lambda: next(f.loc for f in F.fns.values() if f.q.startswith("ceres::CubicInterpolator") and f.n == "Evaluate" and len(f.params) == 3)
    L2 = lambda: next(f.loc for f in F.fns.values() if f.q.startswith("ceres::BiCubicInterpolator") and f.n == "Evaluate" and len(f.params) == 5)
    p1 = [{"x": x} for x in xs]
    p2 = [{"r": x, "c": y} for x, y in zip(xs, xs[3:] + xs[:3])]
    x, rr, cc = tm.sym("x"), tm.sym("r"), tm.sym("c")

    def one(wf, wd):
        def go():
            f = array("f", 2, "uninit") if wf else NULL
            d = array("d", 2, "uninit") if wd else NULL
            mk().call(F.one("w::cubic"), [grid[0], x, f, d])
            key = "cubic f%s df%s" % ("" if wf else "=null", "" if wd else "=null")
            judge(key, L1(), (cells(f) if wf else []) + (cells(d) if wd else []),
                  lambda p: [ref1(i, p["x"])[0] for i in range(2) if wf] + [ref1(i, p["x"])[1] for i in range(2) if wd], p1)
        guarded(C, "cubic %d%d" % (wf, wd), go)
    for wf in (0, 1):
        for wd in (0, 1):
            one(wf, wd)

    def two(m):
        def go():
            o = [array("fde"[k], 2, "uninit") if m >> k & 1 else NULL for k in range(3)]
            mk().call(F.one("w::bicubic"), [grid[1], rr, cc] + o)
            judge("bicubic outputs %s" % bin(m), L2(), [t for k in range(3) if m >> k & 1 for t in cells(o[k])],
                  lambda p: [ref2(i, p["r"], p["c"])[k] for k in range(3) if m >> k & 1 for i in range(2)], p2)
        guarded(C, "bicubic %d" % m, go)
    for m in range(8):
        if (m & 1) and True:   # the value is always requested (documented signature), derivatives optional
            two(m)

    def vals():
        f = array("f", 2, "uninit")
        mk().call(F.one("w::cubic2"), [grid[0], x, f])
        judge("cubic value only", L1(), cells(f), lambda p: [ref1(i, p["x"])[0] for i in range(2)], p1)
        f = array("f", 2, "uninit")
        mk().call(F.one("w::bicubic2"), [grid[1], rr, cc, f])
        judge("bicubic value only", L2(), cells(f), lambda p: [ref2(i, p["r"], p["c"])[0] for i in range(2)], p2)
    guarded(C, "value only", vals)

    def jets():
        cls = "ceres::Jet<double, 3>"
        xj = jet_sym(F, cls, "x", 3)
        f = jet_array(F, cls, 2)
        ip = mk()
        ip.call(F.one("w::cubicj"), [grid[0], xj, f])
        outs = [t for c in f.reg.cells for t in jet_terms(c.v, 3)]
        pj = [dict({"x.a": p["x"]}, **{"x.v%d" % k: mp(r.num()) for k in range(3)}) for p in p1]
        judge("cubic dual", L1(), outs, lambda p: [t for i in range(2) for t in [ref1(i, p["x.a"])[0]] + [ref1(i, p["x.a"])[1] * p["x.v%d" % k] for k in range(3)]], pj)
        rj, cj = jet_sym(F, cls, "r", 3), jet_sym(F, cls, "c", 3)
        f = jet_array(F, cls, 2)
        mk().call(F.one("w::bicubicj"), [grid[1], rj, cj, f])
        outs = [t for c in f.reg.cells for t in jet_terms(c.v, 3)]
        pj = [dict({"r.a": p["r"], "c.a": p["c"]}, **{q + ".v%d" % k: mp(r.num()) for k in range(3) for q in "rc"}) for p in p2]

        def want(p):
            o = []
            for i in range(2):
                f_, dr, dc = ref2(i, p["r.a"], p["c.a"])
                o += [f_] + [dr * p["r.v%d" % k] + dc * p["c.v%d" % k] for k in range(3)]
            return o
        judge("bicubic dual", L2(), outs, want, pj)
    guarded(C, "dual", jets)

    # finite grids: documented element for every index, clamped at both ends
    for D in (1, 3):
        for I in (True, False):
            for b, e in ((0, 4), (-3, 1), (5, 6)):
                def go(D=D, I=I, b=b, e=e):
                    fn = [f for f in F.fns.values() if f.q.startswith("w::get1") and f.get("ta") == "%d,%s" % (D, str(I).lower())][0]
                    N = e - b
                    key = "Grid1D<%d,%s> [%d,%d)" % (D, "interleaved" if I else "stacked", b, e)
                    bad = None
                    for n in range(b - 3, e + 3):
                        data, f = array("d", D * N), array("f", D, "uninit")
                        Interp(F).call(fn, [data, const(b), const(e), const(n), f])
                        k = min(max(n, b), e - 1) - b
                        want = [tm.sym("d%d" % (D * k + i if I else i * N + k)) for i in range(D)]
                        if cells(f) != want:
                            bad = "index %d reads %s, expected %s" % (n, [str(tm.show(t, 3)) if isinstance(t, T) else t for t in cells(f)], [tm.show(t, 3) for t in want])
                    C.violation(key, loc_of(F, "ceres::Grid1D", "GetValue"), bad) if bad else C.passed(key)
                guarded(C, "Grid1D<%d,%s> [%d,%d)" % (D, I, b, e), go)
    for D in (1, 2):
        for R in (True, False):
            for I in (True, False):
                for rb, re_, cb, ce in ((0, 3, 0, 4), (-2, 0, 3, 6)):
                    def go(D=D, R=R, I=I, rb=rb, re_=re_, cb=cb, ce=ce):
                        fn = [f for f in F.fns.values() if f.q.startswith("w::get2") and f.get("ta") == "%d,%s,%s" % (D, str(R).lower(), str(I).lower())][0]
                        nr, nc = re_ - rb, ce - cb
                        key = "Grid2D<%d,%s,%s> rows [%d,%d) cols [%d,%d)" % (D, "row-major" if R else "column-major", "interleaved" if I else "stacked", rb, re_, cb, ce)
                        bad = None
                        for a in range(rb - 2, re_ + 2):
                            for b in range(cb - 2, ce + 2):
                                data, f = array("d", D * nr * nc), array("f", D, "uninit")
                                Interp(F).call(fn, [data] + [const(v) for v in (rb, re_, cb, ce, a, b)] + [f])
                                i_, j_ = min(max(a, rb), re_ - 1) - rb, min(max(b, cb), ce - 1) - cb
                                k = i_ * nc + j_ if R else j_ * nr + i_
                                want = [tm.sym("d%d" % (D * k + i if I else i * nr * nc + k)) for i in range(D)]
                                if cells(f) != want:
                                    bad = "(%d,%d) reads %s, expected %s" % (a, b, [str(tm.show(t, 3)) if isinstance(t, T) else t for t in cells(f)], [tm.show(t, 3) for t in want])
                        C.violation(key, loc_of(F, "ceres::Grid2D", "GetValue"), bad) if bad else C.passed(key)
                    guarded(C, "Grid2D %s" % ((D, R, I, rb),), go)
    C.floor = 30
    C.assume = ["real arithmetic", "interpolators are analysed over grids with two values per node"]
    return C
