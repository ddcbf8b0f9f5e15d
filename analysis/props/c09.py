"""C09: automatic differentiation wrappers."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf
RULE = ("value numbering of every automatic-differentiation wrapper around a witness functor: for every subset of requested Jacobian blocks, the residual terms == the functor's, each requested "
        "Jacobian entry == the exact partial derivative at its documented position (row-major per block; column-major for TinySolver), every requested entry written, nothing outside the extents, "
        "the functor's failure returned as false")

s, e_, c_ = mpmath.sin, mpmath.exp, mpmath.cos


def fn3(v):
    x0, x1, y0, z0, z1, z2 = v
    return [x0 * y0 + s(x1) * z2 - 3 * z0, z1 * x0 * x0 + e_(y0) + z0 * z2]


def fn4(v):
    x0, y0, y1, z0, z1, u0, u1 = v
    return [x0 * y0 + s(u1) * z1 - 3 * z0, z1 * x0 * u0 + e_(y1), y0 * y1 * u1 * x0 * z0 * u0]


def fn1(v):
    z0, z1, z2 = v
    return [s(z1) * z2 - 3 * z0, z1 * e_(z0) + z0 * z2]


def fns(v):
    return fn1(v)[:1]


def fnbig(v):
    return [v[i] * v[51] - v[50] * i for i in range(21)]


def jac(f, v):
    h = M(10) ** -13
    n = len(f(v))
    out = [[None] * len(v) for _ in range(n)]
    for j in range(len(v)):
        a, b = list(v), list(v)
        a[j] += h
        b[j] -= h
        fa, fb = f(a), f(b)
        for i in range(n):
            out[i][j] = (fa[i] - fb[i]) / (2 * h)
    return out


def run():
    C = Check("C09", RULE, floor=60)
    F = facts.load([facts.witness("autodiff.cc")])
    r = rng("c09")

    def check_one(key, fn, f, sizes, nres, mask, ok, loc, multi=True, colmajor=False):
        """mask: tuple of bools, None for jacobians == nullptr."""
        def go():
            ip = Interp(F)
            names = [["p%d_%d" % (b, i) for i in range(sz)] for b, sz in enumerate(sizes)]
            blocks = [array("p%d_" % b, sz) for b, sz in enumerate(sizes)]
            res = array("res", nres, "uninit")
            js = [array("jac%d" % b, nres * sz, "uninit") if mask and mask[b] else NULL for b, sz in enumerate(sizes)]
            if multi:
                P = Ptr(Region([Cell(b) for b in blocks], "parameters"))
                J = Ptr(Region([Cell(j) for j in js], "jacobians")) if mask is not None else NULL
            else:
                P, J = blocks[0], js[0]
            ret = ip.call(fn, [P, res, J, const(ok)])
            if ret is not TRUE and ret is not FALSE:
                raise Unsupported("return value is not decided: %s" % (ret,))
            got = ret is TRUE
            if got != bool(ok):
                C.violation(key, loc, "returns %s when the functor returns %s" % (got, bool(ok)))
                return
            if [c.v for b in blocks for c in b.reg.cells] != [tm.sym(n) for ns in names for n in ns]:
                C.violation(key, loc, "the parameters are modified")
                return
            if not ok:
                C.passed(key)
                return
            for k in range(2):
                p = {n: mp(r.num(-2, 2)) for ns in names for n in ns}
                env = tm.Env(p)
                flat = [p[n] for ns in names for n in ns]
                want, wj = f(flat), jac(f, flat)
                for i in range(nres):
                    if res.reg.cells[i].v is UNINIT:
                        C.violation(key, loc, "residual %d is not written" % i)
                        return
                    if not tm.close(env.ev(res.reg.cells[i].v), want[i]):
                        C.violation(key, loc, "residual %d is not the functor's: %s" % (i, tm.show(res.reg.cells[i].v, 6)))
                        return
                off = 0
                for b, sz in enumerate(sizes):
                    if mask and mask[b]:
                        for i in range(nres):
                            for j in range(sz):
                                v = js[b].reg.cells[i + j * nres if colmajor else i * sz + j].v
                                if v is UNINIT:
                                    C.violation(key, loc, "Jacobian %d entry (%d,%d) is not written" % (b, i, j))
                                    return
                                g = env.ev(v)
                                if not tm.close(g, wj[i][off + j], M("1e-15")):
                                    C.violation(key, loc, "Jacobian %d entry (%d,%d) is %s, the derivative is %s: %s" % (b, i, j, fmt(g), fmt(wj[i][off + j]), tm.show(v, 5)))
                                    return
                    off += sz
            C.passed(key)
        guarded(C, key, go)

    def masks(n):
        return [None] + list(itertools.product((True, False), repeat=n))
    multi = [("AutoDiffCostFunction fixed", "StaticFn", None, fn3, [2, 1, 3], 2, "ceres::AutoDiffCostFunction"),
             ("AutoDiffCostFunction dynamic residuals", "DynamicResidualsFn", None, fn3, [2, 1, 3], 2, "ceres::AutoDiffCostFunction")]
    multi.append(("AutoDiffCostFunction, heap-sized", "BigFn", None, fnbig, [51, 1], 21, "ceres::AutoDiffCostFunction"))
    for S in (1, 2, 3, 4, 5, 6, 7):
        multi.append(("DynamicAutoDiffCostFunction stride %d" % S, "DynFn", S, fn3, [2, 1, 3], 2, "ceres::DynamicAutoDiffCostFunction"))
    for S in (1, 2, 3, 4, 8):
        multi.append(("DynamicAutoDiffCostFunction (4 blocks) stride %d" % S, "FourFn", S, fn4, [1, 2, 2, 2], 3, "ceres::DynamicAutoDiffCostFunction"))
    for title, name, S, f, sizes, nres, cls in multi:
        loc = loc_of(F, cls, "Evaluate")
        fn = witness_fn(F, "w::", name + (str(S) if S else ""))
        if fn is None:
            raise facts.AnalysisBroken("witness %s%s" % (name, S))
        for m in (masks(len(sizes)) if name != "BigFn" else [None, (True, True)]):
            for ok in ((1, 0) if m is None or all(m) or not any(m) else (1,)):
                key = "%s, Jacobians %s, functor %s" % (title, "none (null array)" if m is None else "".join("x" if q else "-" for q in m), "succeeds" if ok else "fails")
                check_one(key, fn, f, sizes, nres, m, ok, loc)
    single = [("AutoDiffFirstOrderFunction", "FirstOrder", fns, 1, "ceres::AutoDiffFirstOrderFunction", "Evaluate"),
              ("TinySolverAutoDiffFunction fixed", "TinyFixed", fn1, 2, "ceres::TinySolverAutoDiffFunction", "operator()"),
              ("TinySolverAutoDiffFunction dynamic", "TinyDynamic", fn1, 2, "ceres::TinySolverAutoDiffFunction", "operator()"),
              ("TinySolverAutoDiffFunction, second evaluation", "TinyAgain", fn1, 2, "ceres::TinySolverAutoDiffFunction", "operator()"),
              ("TinySolverAutoDiffFunction dynamic with maximum", "TinyMax", fn1, 2, "ceres::TinySolverAutoDiffFunction", "operator()")]
    for title, name, f, nres, cls, mname in single:
        fn = witness_fn(F, "w::", name)
        for m in ((True,), (False,)):
            for ok in (1, 0):
                key = "%s, Jacobian %s, functor %s" % (title, "requested" if m[0] else "null", "succeeds" if ok else "fails")
                check_one(key, fn, f, [3], nres, m, ok, loc_of(F, cls, mname), multi=False, colmajor=True)
    for nm in ("AdapterFF", "AdapterDF", "AdapterFD", "AdapterDD", "AdapterAgain"):
        x = witness_fn(F, "w::", nm)
        for m in ((True,), (False,)):
            for ok in (1, 0):
                key = "TinySolverCostFunctionAdapter %s, Jacobian %s, functor %s" % (nm, "requested" if m[0] else "null", "succeeds" if ok else "fails")
                check_one(key, x, fn1, [3], 2, m, ok, loc_of(F, "ceres::TinySolverCostFunctionAdapter", "operator()"), multi=False, colmajor=True)
    C.assume = ["real arithmetic", "dual-number operations correct (C01)"]
    return C
