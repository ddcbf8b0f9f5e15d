"""C14: parameter blocks and programs: updates, bounds, state transfer, offsets, reduction."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
from props import c11, c13
M = mpmath.mpf
RULE = ("value numbering of Program/ParameterBlock member functions over a world of three blocks with uninterpreted manifolds and symbolic bounds, state and user memory: every output term == the documented function "
        "(manifold Plus then clamp; bounds; feasibility; copies between state vector and blocks; cumulative offsets; removal of constant and unused blocks with their cost)")
BIG = M(2) ** 1024 - M(2) ** 971
BL = [(0, 1), (2,), (3, 4)]                    # coordinates of the three blocks
FNS = {"R0": c11.FN["R0"], "R1": c11.FN["R1"], "J": c11.FN["J"], "Ok": lambda *a: M(1), "Fill": lambda k: M(1), "PJ": c13.PJ, "OkPJ": lambda b: M(1),
       "Pl": lambda b, i, x, d: mpmath.sin(x * 3 + b + i) + d, "OkPl": lambda *a: M(1), "Rho": lambda k, x: mpmath.exp(-x) + k + 1}


def load():
    fs = c13.SRC + ["program.cc", "parameter_block.cc"]
    return facts.load([facts.witness("program.cc")] + [os.path.join(facts.REPO, "internal/ceres/" + f) for f in fs if os.path.exists(os.path.join(facts.REPO, "internal/ceres/" + f))])


def run():
    C = Check("C14", RULE, floor=15)
    F = load()
    r = rng("c14")
    P = "ceres::internal::Program"

    def go(name, args):
        ip = Interp(F)
        c11.hooks(ip, c13.NAMES)
        for n in ("StrAppend", "StrAppendFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: None
        for n in ("StrCat", "StrFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: Opaque("string")
        v = ip.call(witness_fn(F, "w::", name), args)
        ab = tm.FALSE
        for q in ip.aborts:
            ab = lor(ab, q)
        if any(env(p).ev(ab) for p in pts(3)):
            C.violation("no failing CHECK in " + name, loc_of(F, P, {"PlusAll": "Plus", "Bounds": "IsFeasible", "Feasible": "IsFeasible", "Constrained": "IsBoundsConstrained", "Finite": "ParameterBlocksAreFinite", "Transfer": "StateVectorToParameterBlocks", "Indices": "SetParameterOffsetsAndIndex", "Reduce": "RemoveFixedBlocks"}[name]), "a CHECK fails on valid input, so the process aborts (%s)" % name)
        return ip.truth(v) if isinstance(v, T) else v

    u, lo, hi, x, d = (lambda n=n: array(n, 5) for n in ("u", "lo", "hi", "x", "d"))
    un = lambda n, k=5: array(n, k, "uninit")

    def env(p, **kw):
        return tm.Env(p, dict(FNS, **kw))

    def pts(k):
        """values of lo/hi/u per coordinate, including unbounded markers and values outside"""
        for j in range(k):
            p = {}
            for i in range(5):
                a, b = sorted((mp(r.num(-2, 2)), mp(r.num(-2, 2))))
                if j % 3 == 2 and i == j % 5:
                    a, b = b, a
                p["lo%d" % i], p["hi%d" % i] = a, b
                if j % 4 == 1:
                    p["lo%d" % i] = -BIG
                if j % 4 == 3:
                    p["hi%d" % i] = BIG
                p["u%d" % i], p["x%d" % i], p["d%d" % i] = [mp(r.num(-3, 3)) for _ in range(3)]
                if j % 5 == 0:                 # inside
                    p["u%d" % i] = (max(a, M(-2)) + b) / 2
            yield p

    def same(e, cell, want):
        v = cell.v
        return isinstance(v, T) and tm.close(e.ev(v), want)

    def bnd(p, i, lm, hm):
        return (p["lo%d" % i] if lm >> i & 1 else -BIG), (p["hi%d" % i] if hm >> i & 1 else BIG)

    masks = [(0, 0), (31, 31), (31, 0), (0, 31), (5, 6), (18, 9)]

    # bounds -----------------------------------------------------------------
    loc = loc_of(F, "ceres::internal::ParameterBlock", "SetLowerBound")
    for (lm, hm), again in itertools.product(masks, (0, 13)):
        def go_bounds(lm=lm, hm=hm, again=again):
            o = un("out", 26)
            go("Bounds", [u(), lo(), hi(), const(lm), const(hm), array("lo2_", 5), array("hi2_", 5), const(again), const(again), o])
            for j, p in enumerate(pts(8)):
                for i in range(5):
                    v = sorted((mp(r.num(-2, 2)), mp(r.num(-2, 2))))
                    p["lo2_%d" % i], p["hi2_%d" % i] = (-BIG, BIG) if j & 1 else v
                e = env(p)
                q = {k: v for k, v in p.items()}
                for i in range(5):
                    for s in ("lo", "hi"):
                        if again >> i & 1:
                            q[s + str(i)] = p[s + "2_%d" % i]
                p = q
                for i in range(5):
                    for q in range(4):
                        if not same(e, o.reg.cells[4 * i + q], bnd(p, i, lm | again, hm | again)[q & 1]):
                            C.violation("bounds read back, set masks %d %d then %d" % (lm, hm, again), loc, "%s bound of coordinate %d is not the one set" % (("lower", "upper")[q & 1], i))
                            return
                for b in range(3):
                    for q in range(2):
                        want = any(abs(bnd(p, i, lm | again, hm | again)[q]) < BIG for i in BL[b])
                        if not want and any((lm, hm)[q] >> i & 1 for i in BL[b]):
                            continue           # set once, then reset: either answer is fine
                        if not same(e, o.reg.cells[20 + 3 * q + b], int(want)):
                            C.violation("bounds read back, set masks %d %d then %d" % (lm, hm, again), loc, "block %d is reported as %s %s" % (b, "not" if want else "", ("lower bounded", "upper bounded")[q]))
                            return
            C.passed("bounds read back, set masks %d %d then %d" % (lm, hm, again))
        guarded(C, "bounds %d %d" % (lm, hm), go_bounds)

    # plus -------------------------------------------------------------------
    loc = loc_of(F, "ceres::internal::ParameterBlock", "Plus")
    for man, order, (lm, hm) in itertools.product(range(4), (0, 1), masks):
        key = "Program::Plus, manifolds %d, order %d, bounds %d %d" % (man, order, lm, hm)

        def go_plus(man=man, order=order, lm=lm, hm=hm, key=key):
            o, X, D = un("out"), x(), d()
            ret = go("PlusAll", [u(), const(man), const(order), lo(), hi(), const(lm), const(hm), X, D, o])
            tan = [1 if man & 1 else 2, 1, 2]
            seq = (2, 0, 1) if order else (0, 1, 2)
            if [c.v for c in X.reg.cells] != [tm.sym("x%d" % i) for i in range(5)]:
                C.violation(key, loc, "the state is modified")
                return
            for p in pts(6):
                for i in range(5):             # reversed bounds have no projection
                    p["lo%d" % i], p["hi%d" % i] = sorted((p["lo%d" % i], p["hi%d" % i]))
                e = env(p)
                if not e.ev(ret):
                    C.violation(key, loc, "fails although no manifold fails")
                    return
                so = do = 0
                for b in seq:
                    for i, c in enumerate(BL[b]):
                        xs, ds = p["x%d" % (so + i)], [p["d%d" % (do + q)] for q in range(tan[b])]
                        if b < 2 and man >> b & 1:
                            w = FNS["Pl"](b, i, xs, ds[0])
                        else:
                            w = xs + ds[i]
                        l, h = bnd(p, c, lm, hm)
                        w = min(max(w, l), h)
                        if not same(e, o.reg.cells[so + i], w):
                            C.violation(key, loc, "coordinate %d of block %d is not the step projected onto the bounds" % (i, b))
                            return
                    so += len(BL[b])
                    do += tan[b]
                for b in range(2):
                    f = env(p, OkPl=lambda *a, b=b: M(int(a[0]) != b))
                    if bool(f.ev(ret)) != (not man >> b & 1):
                        C.violation(key, loc, "a failure of manifold %d is %s" % (b, "ignored" if man >> b & 1 else "reported though it is not used"))
                        return
            C.passed(key)
        guarded(C, key, go_plus)

    # feasibility ------------------------------------------------------------
    loc = loc_of(F, P, "IsFeasible")
    for cst, (lm, hm) in itertools.product(range(8), masks):
        key = "IsFeasible, constant %d, bounds %d %d" % (cst, lm, hm)

        def go_feas(cst=cst, lm=lm, hm=hm, key=key):
            ret = go("Feasible", [u(), const(3), const(cst), lo(), hi(), const(lm), const(hm)])
            k2 = go("Constrained", [u(), const(3), const(cst), lo(), hi(), const(lm), const(hm)])
            ps = list(pts(30))
            base = dict(ps[0])
            for i in range(5):                 # one coordinate at a time: equal bounds, reversed bounds, outside below/above, on a bound
                for l, h, v in ((1, 1, 1), (1, 0, M("0.5")), (0, 1, M("-0.5")), (0, 1, M("1.5")), (0, 1, 0), (0, 1, 1)):
                    q = dict(base)
                    q.update({"lo%d" % i: M(l), "hi%d" % i: M(h), "u%d" % i: M(v)})
                    ps.append(q)
            for p in ps:
                e = env(p)
                ok, con = True, False
                for b in range(3):
                    for c in BL[b]:
                        l, h = bnd(p, c, lm, hm)
                        ok &= l <= p["u%d" % c] <= h if cst >> b & 1 else l < h
                        con |= not cst >> b & 1 and (l > -BIG or h < BIG)
                if bool(e.ev(ret)) != ok:
                    C.violation(key, loc, "returns %s where constant blocks %s" % (not ok, "and bounds are feasible" if ok else "or bounds are infeasible"))
                    return
                if bool(e.ev(k2)) != con:
                    C.violation(key, loc_of(F, P, "IsBoundsConstrained"), "IsBoundsConstrained is %s" % (not con))
                    return
            C.passed(key)
        guarded(C, key, go_feas)

    # finite -----------------------------------------------------------------
    loc = loc_of(F, P, "ParameterBlocksAreFinite")

    def go_fin():
        for cst in (0, 1, 6):
            ret = go("Finite", [u(), const(cst)])
            for p in pts(3):
                if not env(p).ev(ret):
                    C.violation("finite parameters", loc, "finite parameters are reported as non-finite")
                    return
                for i in range(5):
                    for bad in (mpmath.inf, -mpmath.inf, mpmath.nan):
                        if env(dict(p, **{"u%d" % i: bad})).ev(ret):
                            C.violation("finite parameters", loc, "a non-finite parameter is not reported")
                            return
        C.passed("finite parameters")
    guarded(C, "finite parameters", go_fin)

    # transfer ---------------------------------------------------------------
    loc = loc_of(F, P, "StateVectorToParameterBlocks")
    for man, cst, order in itertools.product((0, 1, 2, 3, 4, 7), range(8), (0, 1)):
        key = "state transfer, manifolds %d, constant %d, order %d" % (man, cst, order)

        def go_tr(man=man, cst=cst, order=order, key=key):
            U, X = u(), x()
            before, after, ub, ua = [un(n) for n in ("before", "after", "ub", "ua")]
            ret = go("Transfer", [U, const(man), const(cst), const(order), X, before, after, ub, ua])
            seq = (2, 0, 1) if order else (0, 1, 2)
            flat = [(b, c) for b in seq for c in BL[b]]
            for p in pts(2):
                e = env(p)
                if not e.ev(ret):
                    C.violation(key, loc, "fails although no manifold fails")
                    return
                for k, (b, c) in enumerate(flat):
                    const_ = cst >> b & 1 or (b == 2 and man & 4)
                    uc, xc = p["u%d" % c], p["x%d" % k]
                    for arr, at, w, txt in ((before, k, uc, "the initial state is not the user's"), (after, k, uc if const_ else xc, "the state after the transfer is not the %s" % ("constant value" if const_ else "transferred one")),
                                            (ub, c, uc, "the user's memory changes before it is committed"), (ua, c, uc if const_ else xc, "the committed value is not the %s" % ("constant value" if const_ else "transferred one")), (X, k, xc, "the state vector is modified")):
                        if not same(e, arr.reg.cells[at], w):
                            C.violation(key, loc, txt)
                            return
                for b in range(2):
                    f = env(p, OkPJ=lambda q, b=b: M(int(q) != b))
                    used = man >> b & 1 and not cst >> b & 1
                    if used and f.ev(ret):
                        C.violation(key, loc, "a failing manifold Jacobian is ignored")
                        return
            C.passed(key)
        guarded(C, key, go_tr)

    # offsets ----------------------------------------------------------------
    loc = loc_of(F, P, "SetParameterOffsetsAndIndex")
    for man, cst, order in itertools.product((0, 1, 2, 3, 4, 7), (0, 3, 5), (0, 1)):
        key = "offsets, manifolds %d, constant %d, order %d" % (man, cst, order)

        def go_ix(man=man, cst=cst, order=order, key=key):
            o = un("o", 16)
            go("Indices", [u(), const(man), const(cst), const(order), o])
            seq = (2, 0, 1) if order else (0, 1, 2)
            tan = [1 if man & 1 else 2, 1, 0 if man & 4 else 2]
            so = do = 0
            want = [None] * 16
            for k, b in enumerate(seq):
                want[4 * b:4 * b + 4] = [k, so, do, int(tan[b] == 0 or cst >> b & 1)]
                so += len(BL[b])
                do += tan[b]
            want[12:] = [so, do, 3, 1]
            got = [int(tm.cval(c.v)) if isinstance(c.v, T) and tm.isc(c.v) else None for c in o.reg.cells]
            if got != want:
                C.violation(key, loc, "indices, offsets and sizes are %s where %s is expected" % (got, want))
            else:
                C.passed(key)
        guarded(C, key, go_ix)

    # reduction --------------------------------------------------------------
    loc = loc_of(F, P, "RemoveFixedBlocks")
    for man, cst in itertools.product((0, 3), range(8)):
        key = "reduced program, manifolds %d, constant %d" % (man, cst)

        def go_red(man=man, cst=cst, key=key):
            fc, o, U = un("fc", 1), un("o", 16), u()
            ret = go("Reduce", [U, const(man), const(cst), fc, o])
            c0, c1 = cst & 1, cst >> 1 & 1
            keptr = ([] if c0 and c1 else [0]) + ([] if c1 else [1])
            keptb = ([] if c0 else [0]) + ([] if c1 else [1])
            rem = [b for b in range(3) if b not in keptb]
            want = [None] * 16
            want[0:3] = [len(keptb), len(keptr), len(rem)]
            want[3:3 + len(keptb)] = keptb
            want[6:6 + len(keptr)] = keptr
            want[8:10] = [3, 2]
            want[10:10 + len(keptb)] = range(len(keptb))
            for p in pts(4):
                e = env(p)
                if not e.ev(ret):
                    C.violation(key, loc, "fails although every evaluation succeeds")
                    return
                got = [int(e.ev(c.v)) if isinstance(c.v, T) else None for c in o.reg.cells]
                grem = sorted(got[13:13 + len(rem)], key=lambda v: -1 if v is None else v)
                if got[:13] != want[:13] or grem != rem:
                    C.violation(key, loc, "kept blocks, residuals and removed blocks are %s where %s with removed %s is expected" % (got, want[:13], rem))
                    return
                a = [p["u%d" % i] for i in range(5)]
                w = M(0)
                if c0 and c1:
                    w += (FNS["R0"](*a[:3]) ** 2 + FNS["R1"](*a[:3]) ** 2) / 2
                if c1:
                    sq = FNS["R1"](a[2], 0, 0) ** 2
                    w += FNS["Rho"](0, sq) / 2
                if not same(e, fc.reg.cells[0], w):
                    C.violation(key, loc, "the fixed cost is not the cost of the removed residuals")
                    return
                for which, used in (((lambda *q: M(q[1:] == (1, 1))), c0 and c1), ((lambda *q: M(q[1:] != (1, 1))), c1)):
                    if bool(env(p, Ok=which).ev(ret)) != (not used):
                        C.violation(key, loc, "failure of a removed residual's evaluation is ignored" if used else "fails because of a kept residual")
                        return
            C.passed(key)
        guarded(C, key, go_red)
    C.assume = ["real arithmetic", "ParallelFor with one thread (parallel use: C34)"]
    return C
