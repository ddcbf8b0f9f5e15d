"""C10: numeric differentiation wrappers."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf
RULE = ("value numbering of every numeric-differentiation wrapper around uninterpreted residual functions R(x) with an uninterpreted success flag: every Jacobian entry == the documented difference "
        "quotient (forward, central, Ridders tableau) with step max(sqrt(eps), relative*|x|), only that coordinate perturbed, residuals == R at the unperturbed point, user parameters unmodified, "
        "null blocks skipped, result false iff an evaluation it needs fails")
MINSTEP = mpmath.sqrt(M(2) ** -52)
FN = {"R0": lambda x, y, z: mpmath.sin(x) * z + y * y * x + mpmath.exp(z / 3), "R1": lambda x, y, z: mpmath.cos(x * y) + 3 * z * z * x - y}


def ridders(f, x, delta, o):
    """The documented algorithm: Romberg tableau of central differences with shrinking steps."""
    a, c = [M(0)], None
    b, rrel, n, eps, shrink = o
    h = delta * shrink ** (n // 2)
    norm = lambda u, v: mpmath.sqrt(sum((p - q) ** 2 for p, q in zip(u, v)))
    best, err, prev = None, mpmath.inf, None
    for i in range(n):
        cur = [[(p - q) / (2 * h) for p, q in zip(f(x + h), f(x - h))]]
        if i == 0:
            best = cur[0]
        h = h / shrink
        rf = shrink ** 2
        for k in range(1, i + 1):
            cur.append([(rf * u - v) / (rf - 1) for u, v in zip(cur[k - 1], prev[k - 1])])
            rf *= shrink ** 2
            e = max(norm(cur[k], cur[k - 1]), norm(cur[k], prev[k - 1]))
            if e <= err:
                err, best = e, cur[k]
                if err < eps:
                    break
        if err < eps:
            break
        if i > 0 and norm(cur[i], prev[i - 1]) >= 2 * err:
            break
        prev = cur
    return best


def run():
    C = Check("C10", RULE, floor=40)
    F = facts.load([facts.witness("numdiff.cc")])
    r = rng("c10")
    multi = [("NumericDiffCostFunction fixed", "Fixed", "ceres::NumericDiffCostFunction"), ("NumericDiffCostFunction dynamic residuals", "DynRes", "ceres::NumericDiffCostFunction"),
             ("NumericDiffCostFunction of a CostFunction", "CostFn", "ceres::NumericDiffCostFunction"), ("DynamicNumericDiffCostFunction", "Dynamic", "ceres::DynamicNumericDiffCostFunction"),
             ("NumericDiffFirstOrderFunction fixed", "First", "ceres::NumericDiffFirstOrderFunction"), ("NumericDiffFirstOrderFunction dynamic", "FirstDyn", "ceres::NumericDiffFirstOrderFunction")]
    base = [(M("0.7"), M("-1.3"), M("2.1")), (M(0), M("1e-12"), M("-1e-9")), (M("-250"), M("0.01"), M("30"))]

    def one(title, fn, method, cls, single, mask, n, loc):
        key = "%s %s%s, Jacobians %s" % (title, method, " (%d extrapolations)" % n if method == "RIDDERS" else "", "none (null array)" if mask is None else "".join("x" if q else "-" for q in mask))
        nres = 1 if single else 2
        sizes = [3] if single else [2, 1]

        def go():
            ip = Interp(F)
            for nm in ("R0", "R1", "Ok"):
                ip.hooks["w::" + nm] = lambda ip, recv, args, nd, nm=nm: tm.uf(nm, *[ip.load(a) if isinstance(a, (Cell, LVal)) else a for a in args])
            names = [["p%d_%d" % (b, i) for i in range(sz)] for b, sz in enumerate(sizes)]
            blocks = [array("p%d_" % b, sz) for b, sz in enumerate(sizes)]
            res = array("res", nres, "uninit")
            js = [array("jac%d" % b, nres * sz, "uninit") if mask and mask[b] else NULL for b, sz in enumerate(sizes)]
            # unwritten Jacobian entries keep their old value
            for j in js:
                if isinstance(j, Ptr):
                    for c in j.reg.cells:
                        c.v = tm.sym("stale")
            if single:
                P, J = blocks[0], js[0]
            else:
                P = Ptr(Region([Cell(b) for b in blocks], "parameters"))
                J = Ptr(Region([Cell(j) for j in js], "jacobians")) if mask is not None else NULL
            ret = ip.call(fn, [P, res, J, tm.sym("rel"), tm.sym("rrel"), const(n), tm.sym("eps"), tm.sym("shrink")])
            ret = ip.truth(ret)
            flat = [x for ns in names for x in ns]
            if [c.v for b in blocks for c in b.reg.cells] != [tm.sym(x) for x in flat]:
                C.violation(key, loc, "the caller's parameters are modified")
                return
            active = [(b, i, sum(sizes[:b]) + i) for b, sz in enumerate(sizes) for i in range(sz) if mask and mask[b]]
            for pt in base:
                for rel, rrel, eps, shrink in ((M("1e-6"), M("1e-2"), M("1e-12"), M(2)), (M("1e-3"), M("0.5"), M("1e-3"), M("1.5"))):
                    p = dict(zip(flat, pt))
                    p.update(rel=rel, rrel=rrel, eps=eps, shrink=shrink, stale=M("777"))
                    ev = set()

                    def steps(x):
                        ms = max(MINSTEP, rrel) if method == "RIDDERS" else MINSTEP
                        return max(ms, abs(x) * (rrel if method == "RIDDERS" else rel))
                    fns = dict(FN)
                    fns["Ok"] = lambda *a: M(1)
                    e = tm.Env(p, fns)
                    if e.ev(ret) is not True and e.ev(ret) != True:
                        C.violation(key, loc, "returns false although every evaluation succeeds")
                        return
                    for i in range(nres):
                        v = res.reg.cells[i].v
                        if v is UNINIT or not tm.close(e.ev(v), FN["R%d" % i](*pt)):
                            C.violation(key, loc, "residual %d is not the functor's residual at the given point: %s" % (i, tm.show(v, 6) if isinstance(v, T) else v))
                            return
                    for b, j, g in active:
                        def F_(x, g=g):
                            q = list(pt)
                            q[g] = x
                            return [FN["R%d" % i](*q) for i in range(nres)]
                        x, h = pt[g], steps(pt[g])
                        if method == "FORWARD":
                            want = [(u - v) / h for u, v in zip(F_(x + h), F_(x))]
                        elif method == "CENTRAL":
                            want = [(u - v) / (2 * h) for u, v in zip(F_(x + h), F_(x - h))]
                        else:
                            want = ridders(F_, x, h, (rel, rrel, n, eps, shrink))
                        for i in range(nres):
                            t = js[b].reg.cells[i * sizes[b] + j].v
                            got = e.ev(t)
                            if not tm.close(got, want[i], M("1e-18")):
                                C.violation(key, loc, "Jacobian entry (%d,%d) of block %d is %s, the documented difference quotient is %s at (%s): %s" % (i, j, b, fmt(got), fmt(want[i]), ", ".join(map(fmt, pt)), tm.show(t, 5)))
                                return
                    # failures: at the point itself, and at a perturbed point of each requested coordinate
                    def check_fail(bad, what):
                        fns2 = dict(FN)
                        fns2["Ok"] = lambda *a: M(0) if bad(a) else M(1)
                        e2 = tm.Env(p, fns2)
                        if e2.ev(ret):
                            C.violation(key + ", failure " + what, loc, "returns true although the functor fails %s" % what)
                            return False
                        C.passed(key + ", failure " + what)
                        return True
                    if rel == M("1e-6") and pt is base[0]:
                        check_fail(lambda a: all(x == y for x, y in zip(a, pt)), "at the point")
                        for b, j, g in active:
                            check_fail(lambda a, g=g: a[g] > pt[g], "at a forward step of coordinate %d" % g)
                            if method != "FORWARD":
                                check_fail(lambda a, g=g: a[g] < pt[g], "at a backward step of coordinate %d" % g)
            C.passed(key)
        guarded(C, key, go)
    for title, name, cls in multi:
        for method in ("FORWARD", "CENTRAL", "RIDDERS"):
            fn = witness_fn(F, "w::", name + method)
            if fn is None:
                raise facts.AnalysisBroken("witness " + name + method)
            loc = loc_of(F, cls, "Evaluate")
            single = name.startswith("First")
            ms = [(True,), (False,)] if single else [None] + list(itertools.product((True, False), repeat=2))
            for mask in ms:
                for n in ((1, 2, 3, 4) if method == "RIDDERS" else (1,)):
                    if method == "RIDDERS" and not (mask and all(mask)) and n != 2:
                        continue
                    one(title, fn, method, cls, single, mask, n, loc)
    C.assume = ["real arithmetic", "Ridders: tableau sizes 1 to 4"]
    return C
