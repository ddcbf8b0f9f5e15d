"""C13: evaluation of one residual block."""
from alg import *
import facts, itertools
from check import Check
from rotmath import mp
import mpmath
from props import c11
M = mpmath.mpf
RULE = ("value numbering of ResidualBlock::Evaluate with its callees over an uninterpreted cost function, loss and manifolds: cost, residual and Jacobian terms == half the robustified squared norm, the corrected residuals and the "
        "corrected product with the manifold Jacobian, for every subset of outputs; false iff the cost function fails or leaves a requested value unfilled or non-finite; scratch use within NumScratchDoublesForEvaluate")
SRC = ["residual_block.cc", "residual_block_utils.cc", "array_utils.cc", "corrector.cc", "manifold.cc", "cost_function.cc"]
NAMES = ("R0", "R1", "J", "Ok", "Fill", "Rho", "PJ", "OkPJ", "Pl", "OkPl")
s = mpmath.sin
PJ = lambda b, i, j, x: s(x * 2 + b + i * 3) + 2
FN = {"R0": c11.FN["R0"], "R1": c11.FN["R1"], "J": c11.FN["J"], "Ok": lambda *a: M(1), "Fill": lambda k: M(1), "PJ": PJ, "OkPJ": lambda b: M(1)}


def load():
    return facts.load([facts.witness("residual.cc")] + [os.path.join(facts.REPO, "internal/ceres/" + f) for f in SRC if os.path.exists(os.path.join(facts.REPO, "internal/ceres/" + f))])


def run():
    C = Check("C13", RULE, floor=40)
    F = load()
    r = rng("c13")
    fn, fs = witness_fn(F, "w::", "Eval"), witness_fn(F, "w::", "Scratch")
    loc = loc_of(F, "ceres::internal::ResidualBlock", "Evaluate")
    names = ["s0_0", "s0_1", "s1_0"]
    for m0, m1, loss, apply in itertools.product((0, 1), (0, 1), (0, 1), (0, 1)):
        for mask in [None] + list(itertools.product((True, False), repeat=2)):
            for withres in (True, False):
                key = "manifolds %d%d, %s, Jacobians %s, residuals %s" % (m0, m1, "no loss" if not loss else "loss applied" if apply else "loss not applied", "null array" if mask is None else "".join("x" if q else "-" for q in mask), "requested" if withres else "null")

                def go(m0=m0, m1=m1, loss=loss, apply=apply, mask=mask, withres=withres, key=key):
                    U = lambda: [array("u0_", 2), array("u1_", 1)]
                    ip = Interp(F)
                    c11.hooks(ip, NAMES)
                    k = ip.call(fs, U() + [const(m0), const(m1)])
                    if not tm.isc(k):
                        raise Unsupported("scratch size is not constant")
                    k = int(tm.cval(k))
                    ip = Interp(F)
                    c11.hooks(ip, NAMES)
                    us, S = U(), [array("s0_", 2), array("s1_", 1)]
                    tang = [1 if m0 else 2, 1]
                    js = [array("jac%d" % b, 2 * tang[b], "uninit") if mask and mask[b] else NULL for b in range(2)]
                    J = Ptr(Region([Cell(j) for j in js], "jacobians")) if mask is not None else NULL
                    cost, res, scr = array("cost", 1, "uninit"), array("res", 2, "uninit") if withres else NULL, array("scratch", k, "uninit")
                    ret = ip.truth(ip.call(fn, us + S + [const(m0), const(m1), const(loss), const(bool(apply)), cost, res, J, scr]))
                    if [c.v for b in us for c in b.reg.cells] != [tm.sym(n) for n in ("u0_0", "u0_1", "u1_0")] or [c.v for b in S for c in b.reg.cells] != [tm.sym(n) for n in names]:
                        C.violation(key, loc, "the parameters are modified")
                        return
                    act = [b for b in range(2) if mask and mask[b]]
                    for rho in ((M("0.7"), M("0.4"), M("0.3")), (M(2), M("1.5"), M("-0.2")), (M(1), M("0.3"), M(0)), (M("0.1"), M("0.9"), M(2)), (M("0.1"), M("0.9"), M(4))):
                        pt = [mp(r.num(-2, 2)) for _ in names]
                        p = dict(zip(names, pt))
                        p.update(u0_0=M(11), u0_1=M(12), u1_0=M(13))
                        fns = dict(FN)
                        if rho[2] == 4:
                            fns["R0"] = fns["R1"] = lambda *a: M(0)
                        RV = [fns["R%d" % i](*pt) for i in range(2)]
                        sq = sum(x * x for x in RV)
                        fns["Rho"] = lambda k, x, rho=rho: rho[int(k)] * (1 + (x - sq))
                        e = tm.Env(p, fns)
                        if not e.ev(ret):
                            C.violation(key, loc, "returns false although every requested value is finite")
                            return
                        on = loss and apply
                        want = (rho[0] if on else sq) / 2
                        got = cost.reg.cells[0].v
                        if not isinstance(got, T) or not tm.close(e.ev(got), want):
                            C.violation(key, loc, "the cost is %s where half the %s is %s" % (fmt(e.ev(got)) if isinstance(got, T) else got, "robustified squared norm" if on else "squared norm", fmt(want)))
                            return
                        rs, js_, al = (M(1), M(1), M(0))
                        if on:
                            js_ = mpmath.sqrt(rho[1])
                            rs = js_
                            if rho[2] > 0 and sq > 0:
                                a = 1 - mpmath.sqrt(1 + 2 * sq * rho[2] / rho[1])
                                rs = js_ / (1 - a)
                                al = a / sq
                        if withres:
                            for i in range(2):
                                v = res.reg.cells[i].v
                                if not isinstance(v, T) or not tm.close(e.ev(v), rs * RV[i]):
                                    C.violation(key, loc, "residual %d is not the %sresidual" % (i, "corrected " if on else ""))
                                    return
                        amb = [[[FN["J"](i, c, *pt) for c in range(2)] for i in range(2)], [[FN["J"](i, 2, *pt)] for i in range(2)]]
                        for b in act:
                            L = amb[b]
                            if (m0, m1)[b]:
                                pj = [[PJ(b, i, 0, pt[(0, 2)[b] + i])] for i in range((2, 1)[b])]
                                L = [[sum(L[i][q] * pj[q][0] for q in range(len(pj)))] for i in range(2)]
                            for c in range(tang[b]):
                                dot = sum(RV[i] * L[i][c] for i in range(2))
                                for i in range(2):
                                    v = js[b].reg.cells[i * tang[b] + c].v
                                    w = js_ * (L[i][c] - al * RV[i] * dot)
                                    if not isinstance(v, T) or not tm.close(e.ev(v), w):
                                        C.violation(key, loc, "Jacobian of block %d entry (%d,%d) is not the %stangent-space Jacobian" % (b, i, c, "corrected " if on else ""))
                                        return
                        bad = [("the cost function fails", dict(Ok=lambda *a: M(0))), ("residual 0 is left unfilled", dict(Fill=lambda k: M(k != 0))), ("residual 1 is left unfilled", dict(Fill=lambda k: M(k != 1))),
                               ("residual 0 is infinite", dict(R0=lambda *a: mpmath.inf)), ("residual 1 is not a number", dict(R1=lambda *a: mpmath.nan))]
                        for b in act:
                            bad.append(("an entry of Jacobian %d is left unfilled" % b, dict(Fill=lambda k, b=b: M(k != 2 + b))))
                            for i in range(2):
                                for c in ((0, 1), (2,))[b]:
                                    bad.append(("entry (%d,%d) of Jacobian %d is infinite" % (i, c % 2, b), dict(J=lambda q, z, *a, i=i, c=c: mpmath.inf if (q, z) == (i, c) else FN["J"](q, z, *a))))
                        for txt, kw in bad:
                            if tm.Env(p, dict(fns, **kw)).ev(ret):
                                C.violation(key, loc, "returns true although " + txt)
                                return
                        for b in range(2):
                            if b not in act and mask is not None:
                                f2 = dict(fns, Fill=lambda k, b=b: M(k != 2 + b))
                                if not tm.Env(p, f2).ev(ret):
                                    C.violation(key, loc, "returns false because of Jacobian %d, which is not requested" % b)
                                    return
                    C.passed(key)
                guarded(C, key, go)
    C.assume = ["real arithmetic", "Corrector formula as decided by C08"]
    return C
