"""C11: cost functions built from other cost functions."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf
RULE = ("value numbering of each composition over uninterpreted inner cost functions (residuals, Jacobian entries, success flags unknown functions): residual and Jacobian terms == the composition and "
        "its chain rule, for every subset of null Jacobian blocks, false iff an inner evaluation fails")
s = mpmath.sin
FN = {"R0": lambda x, y, z: s(x) * z + y * y * x + 1, "R1": lambda x, y, z: mpmath.cos(x * y) + 3 * z * z * x - y, "J": lambda i, c, x, y, z: s(i * 3 + c) + x * (c + 1) - y * z * (i + 1),
      "C0": lambda x: s(x) + 2 * x, "D0": lambda x: mpmath.cos(x * 3) + 2, "C1": lambda x: x * x + 1, "D1": lambda x: 5 - x}


def hooks(ip, names):
    for nm in names:
        ip.hooks["w::" + nm] = lambda ip, recv, args, nd, nm=nm: tm.uf(nm, *[ip.load(a) if isinstance(a, (Cell, LVal)) else a for a in args])


NAMES = ("R0", "R1", "J", "Ok", "C0", "D0", "Ok0", "C1", "D1", "Ok1")


def run():
    C = Check("C11", RULE, floor=20)
    src = [os.path.join(facts.REPO, "internal/ceres/" + f) for f in ("conditioned_cost_function.cc", "normal_prior.cc", "dynamic_cost_function_to_functor.cc")]
    src = [f for f in src if os.path.exists(f)]
    F = facts.load([facts.witness("compose.cc")] + src)
    r = rng("c11")
    sizes = [2, 1]
    names = ["p0_0", "p0_1", "p1_0"]

    def fns(**kw):
        d = dict(FN)
        for k in ("Ok", "Ok0", "Ok1"):
            d[k] = lambda *a: M(1)
        d.update(kw)
        return d

    def args(mask, nres):
        blocks = [array("p0_", 2), array("p1_", 1)]
        res = array("res", nres, "uninit")
        js = [array("jac%d" % b, nres * sz, "uninit") if mask and mask[b] else NULL for b, sz in enumerate(sizes)]
        P = Ptr(Region([Cell(b) for b in blocks], "parameters"))
        J = Ptr(Region([Cell(j) for j in js], "jacobians")) if mask is not None else NULL
        return blocks, res, js, P, J

    def untouched(blocks):
        return [c.v for b in blocks for c in b.reg.cells] == [tm.sym(n) for n in names]

    masks = [None] + list(itertools.product((True, False), repeat=2))
    loc = loc_of(F, "ceres::ConditionedCostFunction", "Evaluate")
    fn = witness_fn(F, "w::", "Conditioned")
    for c0, c1 in itertools.product((0, 1), repeat=2):
        for mask in masks:
            key = "ConditionedCostFunction conditioners %s, Jacobians %s" % ("%d%d" % (c0, c1), "null array" if mask is None else "".join("x" if q else "-" for q in mask))

            def go(c0=c0, c1=c1, mask=mask, key=key):
                ip = Interp(F)
                hooks(ip, NAMES)
                blocks, res, js, P, J = args(mask, 2)
                ret = ip.truth(ip.call(fn, [P, res, J, const(c0), const(c1)]))
                if not untouched(blocks):
                    C.violation(key, loc, "the parameters are modified")
                    return
                for _ in range(3):
                    pt = [mp(r.num(-2, 2)) for _ in names]
                    e = tm.Env(dict(zip(names, pt)), fns())
                    if not e.ev(ret):
                        C.violation(key, loc, "returns false although every evaluation succeeds")
                        return
                    for i in range(2):
                        raw = FN["R%d" % i](*pt)
                        on = (c0, c1)[i]
                        want = FN["C%d" % i](raw) if on else raw
                        d = FN["D%d" % i](raw) if on else M(1)
                        if res.reg.cells[i].v is UNINIT or not tm.close(e.ev(res.reg.cells[i].v), want):
                            C.violation(key, loc, "residual %d is not the conditioned residual: %s" % (i, tm.show(res.reg.cells[i].v, 5) if isinstance(res.reg.cells[i].v, T) else "unwritten"))
                            return
                        for b in range(2):
                            if mask and mask[b]:
                                for k in range(sizes[b]):
                                    v = js[b].reg.cells[i * sizes[b] + k].v
                                    w = d * FN["J"](i, k + 2 * b, *pt)
                                    if v is UNINIT or not tm.close(e.ev(v), w):
                                        C.violation(key, loc, "Jacobian %d entry (%d,%d) is not the conditioner's derivative times the wrapped one" % (b, i, k))
                                        return
                    for nm, on in (("Ok", 1), ("Ok0", c0), ("Ok1", c1)):
                        if on and tm.Env(dict(zip(names, pt)), fns(**{nm: lambda *a: M(0)})).ev(ret):
                            C.violation(key, loc, "returns true although %s fails" % ("the wrapped cost function" if nm == "Ok" else "conditioner " + nm[2:]))
                            return
                C.passed(key)
            guarded(C, key, go)
    # NormalPrior
    loc = loc_of(F, "ceres::NormalPrior", "Evaluate")
    fn = witness_fn(F, "w::", "Prior")
    for m, n in ((1, 1), (2, 2), (3, 2), (2, 3), (1, 3)):
        for mask in (None, (True,), (False,)):
            key = "NormalPrior %dx%d Jacobian %s" % (m, n, "null array" if mask is None else mask[0])

            def go(m=m, n=n, mask=mask, key=key):
                ip = Interp(F)
                x = array("x", n)
                res = array("res", m, "uninit")
                jac = array("jac", m * n, "uninit") if mask and mask[0] else NULL
                A = ip.matfrom([[tm.sym("a%d_%d" % (i, j)) for j in range(n)] for i in range(m)])
                b = ip.matfrom([[tm.sym("b%d" % i)] for i in range(n)])
                ret = ip.truth(ip.call(fn, [Ptr(Region([Cell(x)], "parameters")), res, Ptr(Region([Cell(jac)], "jacobians")) if mask is not None else NULL, Cell(A), Cell(b)]))
                if ret is not TRUE:
                    C.violation(key, loc, "does not return true")
                    return
                for _ in range(2):
                    p = {"x%d" % i: mp(r.num(-2, 2)) for i in range(n)}
                    p.update({"b%d" % i: mp(r.num(-2, 2)) for i in range(n)})
                    p.update({"a%d_%d" % (i, j): mp(r.num(-2, 2)) for i in range(m) for j in range(n)})
                    e = tm.Env(p)
                    for i in range(m):
                        want = sum(p["a%d_%d" % (i, j)] * (p["x%d" % j] - p["b%d" % j]) for j in range(n))
                        if res.reg.cells[i].v is UNINIT or not tm.close(e.ev(res.reg.cells[i].v), want):
                            C.violation(key, loc, "residual %d is not row %d of A(x-b): %s" % (i, i, tm.show(res.reg.cells[i].v, 5) if isinstance(res.reg.cells[i].v, T) else "unwritten"))
                            return
                        if isinstance(jac, Ptr):
                            for j in range(n):
                                if jac.reg.cells[i * n + j].v is not tm.sym("a%d_%d" % (i, j)):
                                    C.violation(key, loc, "Jacobian entry (%d,%d) is not A(%d,%d)" % (i, j, i, j))
                                    return
                C.passed(key)
            guarded(C, key, go)
    # functors from cost functions
    for name, cls in (("DynD", "ceres::DynamicCostFunctionToFunctor"), ("FixD", "ceres::CostFunctionToFunctor")):
        loc = loc_of(F, cls, "operator()")
        key = cls + " on plain values"

        def go(name=name, key=key, loc=loc):
            ip = Interp(F)
            hooks(ip, NAMES)
            blocks, res, js, P, J = args(None, 2)
            ret = ip.truth(ip.call(witness_fn(F, "w::", name), [P, res]))
            pt = [mp(r.num(-2, 2)) for _ in names]
            e = tm.Env(dict(zip(names, pt)), fns())
            bad = [i for i in range(2) if res.reg.cells[i].v is UNINIT or not tm.close(e.ev(res.reg.cells[i].v), FN["R%d" % i](*pt))]
            if bad:
                C.violation(key, loc, "residual %d is not the cost function's" % bad[0])
            elif not e.ev(ret) or tm.Env(dict(zip(names, pt)), fns(Ok=lambda *a: M(0))).ev(ret):
                C.violation(key, loc, "the return value is not the cost function's")
            else:
                C.passed(key)
        guarded(C, key, go)
    for name, cls in (("DynJ", "ceres::DynamicCostFunctionToFunctor"), ("FixJ", "ceres::CostFunctionToFunctor"), ("FixDynJ", "ceres::CostFunctionToFunctor")):
        loc = loc_of(F, cls, "operator()")
        key = cls + " (%s) on dual numbers" % name

        def go(name=name, key=key, loc=loc):
            ip = Interp(F)
            hooks(ip, NAMES)
            jc = "ceres::Jet<double, 4>"
            blocks = [jet_array(F, jc, 2, "p0_"), jet_array(F, jc, 1, "p1_")]
            res = jet_array(F, jc, 2)
            ret = ip.truth(ip.call(witness_fn(F, "w::", name), [Ptr(Region([Cell(b) for b in blocks], "parameters")), res]))
            for _ in range(3):
                p = {"%s.%s" % (n, q): mp(r.num(-2, 2)) for n in names for q in ("a", "v0", "v1", "v2", "v3")}
                pt = [p[n + ".a"] for n in names]
                e = tm.Env(p, fns())
                if not e.ev(ret) or tm.Env(p, fns(Ok=lambda *a: M(0))).ev(ret):
                    C.violation(key, loc, "the return value is not the cost function's")
                    return
                for i in range(2):
                    ts = jet_terms(res.reg.cells[i].v)
                    want = [FN["R%d" % i](*pt)] + [sum(FN["J"](i, c, *pt) * p["%s.v%d" % (names[c], k)] for c in range(3)) for k in range(4)]
                    for q, (t, w) in enumerate(zip(ts, want)):
                        if t is UNINIT or not tm.close(e.ev(t), w):
                            C.violation(key, loc, "%s of residual %d is not the chain rule value" % ("scalar part" if q == 0 else "derivative %d" % (q - 1), i))
                            return
            C.passed(key)
        guarded(C, key, go)
    gradient_checker(C, r)
    C.assume = ["real arithmetic"]
    return C


def gradient_checker(C, r):
    F = facts.load([facts.witness("compose.cc")] + [os.path.join(facts.REPO, "internal/ceres/" + f) for f in ("gradient_checker.cc", "is_close.cc", "manifold.cc")])
    loc = loc_of(F, "ceres::GradientChecker", "Probe")
    fn = witness_fn(F, "w::", "Probe")
    names = ["p0_0", "p0_1", "p1_0"]
    blk = [(0, 0), (0, 1), (1, 0)]
    PJ = lambda i, x, y: (s(x + i) + 2 * y) if i else (3 + mpmath.cos(x * y))

    def d(f, pt, c):
        return mpmath.diff(lambda x: f(*[x if k == c else q for k, q in enumerate(pt)]), pt[c])
    for man in (0, 1):
        key = "GradientChecker::Probe %s" % ("with a manifold on the first block" if man else "without manifolds")

        def go(man=man, key=key):
            ip = Interp(F)
            hooks(ip, NAMES + ("PJ", "OkPJ", "Extra", "OkJ"))
            for n in ("StrAppend", "StrAppendFormat"):
                ip.hooks["absl::" + n] = lambda ip, recv, args, nd: None
            for n in ("StrCat", "StrFormat"):
                ip.hooks["absl::" + n] = lambda ip, recv, args, nd: Opaque("string")
            blocks = [array("p0_", 2), array("p1_", 1)]
            P = Ptr(Region([Cell(b) for b in blocks], "parameters"))
            t = "ceres::GradientChecker::ProbeResults"
            o = Obj(t)
            ip.init_fields(o, F.recs[t])
            ip.default_member_inits(o, t)
            ret = ip.truth(ip.call(fn, [P, tm.sym("prec"), tm.sym("step"), const(man), Ptr(Region([Cell(o)], "results"))]))
            if [c.v for b in blocks for c in b.reg.cells] != [tm.sym(n) for n in names]:
                C.violation(key, loc, "the parameters are modified")
                return
            g = lambda n: o.f[n].v
            for rep in range(4):
                pt = [mp(r.num(-2, 2)) for _ in names]
                step = M("1e-2")
                h = [max(MINSTEP, step, abs(x) * step) for x in pt]

                def cen(i, c):
                    f = FN["R%d" % i]
                    q = lambda dx: f(*[x + dx if k == c else x for k, x in enumerate(pt)])
                    return (q(h[c]) - q(-h[c])) / (2 * h[c])
                num = [[cen(i, c) for c in range(3)] for i in range(2)]
                for bad in [None] + [(i, c) for i in range(2) for c in range(3)] + ["zero"]:
                    scale = M("1.001") + M(rep) / 1000
                    if bad == "zero":
                        user = [[M(0)] * 3 for _ in range(2)]
                    else:
                        user = [[num[i][c] * scale + (M("0.5") + rep if bad == (i, c) else 0) for c in range(3)] for i in range(2)]
                    look = lambda i, c, *a, user=user: user[int(i)][int(c)]
                    loc_of_ = lambda m: [[sum(m[i][c] * PJ(c, pt[0], pt[1]) for c in range(2)), m[i][2]] if man else m[i] for i in range(2)]
                    lu, ln = loc_of_(user), loc_of_(num)
                    rel = [abs(a - b) / (1 if a == 0 or b == 0 else max(abs(a), abs(b))) for x, y in zip(lu, ln) for a, b in zip(x, y)]
                    worst = max(rel)
                    for prec, want in ((worst * M("1.01"), True), (worst * M("0.99"), False)):
                        p = dict(zip(names, pt))
                        p.update(prec=prec, step=step)

                        def env(**kw):
                            f = fns_(J=look, PJ=PJ)
                            f.update(kw)
                            return tm.Env(p, f)

                        e = env()
                        if bool(e.ev(ret)) != want:
                            C.violation(key, loc, "returns %s although the largest relative difference of the local Jacobians is %s the precision" % (not want, "below" if want else "above"))
                            return
                        if not e.ev(g("return_value")):
                            C.violation(key, loc, "ProbeResults::return_value is false although every evaluation succeeds")
                            return
                        if not tm.close(e.ev(g("maximum_relative_error")), worst, M("1e-18")):
                            C.violation(key, loc, "maximum_relative_error is %s, the largest relative difference is %s" % (fmt(e.ev(g("maximum_relative_error"))), fmt(worst)))
                            return
                        for nm, mats in (("jacobians", user), ("numeric_jacobians", num), ("local_jacobians", lu), ("local_numeric_jacobians", ln)):
                            local = nm.startswith("local") and man
                            shape = [(2, 1), (2, 1)] if local else [(2, 2), (2, 1)]
                            for b in range(2):
                                m = ip.load(g(nm).reg.cells[b])
                                off = sum(x[1] for x in shape[:b])
                                if (m.r, m.c) != shape[b]:
                                    C.violation(key, loc, "%s[%d] is %dx%d, expected %dx%d" % ((nm, b, m.r, m.c) + shape[b]))
                                    return
                                for i in range(2):
                                    for j in range(shape[b][1]):
                                        v = m.at(i, j).v
                                        if v is UNINIT or not tm.close(e.ev(v), mats[i][off + j], M("1e-18")):
                                            C.violation(key, loc, "%s[%d](%d,%d) is wrong: %s" % (nm, b, i, j, tm.show(v, 4) if isinstance(v, T) else "unwritten"))
                                            return
                        if want:
                            for nm, kw in (("a cost function evaluation fails", dict(Ok=lambda *a: M(0))), ("the cost function fails when asked for Jacobians", dict(OkJ=lambda *a: M(0))), ("the first residual differs with and without Jacobians", dict(Extra=lambda i: M(10) ** 6 if int(i) == 0 else M(0))),
                                           ("the second residual differs with and without Jacobians", dict(Extra=lambda i: M(10) ** 6 if int(i) == 1 else M(0)))) + ((("PlusJacobian of the manifold fails", dict(OkPJ=lambda *a: M(0))),) if man else ()):
                                if "residual" in nm and prec > M("0.9"):
                                    continue
                                ee = env(**kw)
                                if ee.ev(ret):
                                    C.violation(key, loc, "returns true although %s" % nm)
                                    return
                                if "fails" in nm and ee.ev(g("return_value")):
                                    C.violation(key, loc, "return_value is true although %s" % nm)
                                    return
            C.passed(key)
        guarded(C, key, go)


MINSTEP = mpmath.sqrt(M(2) ** -52)


def fns_(**kw):
    d = dict(FN)
    for k in ("Ok", "Ok0", "Ok1", "OkPJ", "OkJ"):
        d[k] = lambda *a: M(1)
    d["Extra"] = lambda i: M(0)
    d.update(kw)
    return d
