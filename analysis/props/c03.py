"""C03: every robust loss reports its documented value and exact first and second derivatives."""
from alg import *
import facts
from check import Check
import os

RULE = ("value numbering of every loss-function evaluation (objects built by their own constructors from symbolic scale parameters): value term "
        "== documented rho, derivative terms == its first and second symbolic derivative, on every branch of the gate")
M = mpmath.mpf
a, b, s = tm.sym("a"), tm.sym("b"), tm.sym("s")
D = tm.div
two = const(2)


def spec():
    a2 = tm.mul(a, a)
    S = {}
    S["TrivialLoss"] = ([], s)
    S["HuberLoss"] = (["a"], ite(tm.cmp("<=", s, a2), s, tm.sub(tm.mul(tm.mul(two, a), tm.fun("sqrt", s)), a2)))
    S["SoftLOneLoss"] = (["a"], tm.mul(tm.mul(two, a2), tm.sub(tm.fun("sqrt", tm.add(ONE, D(s, a2))), ONE)))
    S["CauchyLoss"] = (["a"], tm.mul(a2, tm.fun("log", tm.add(ONE, D(s, a2)))))
    S["ArctanLoss"] = (["a"], tm.mul(a, tm.fun("atan", D(s, a))))
    lg = lambda x: tm.mul(b, tm.fun("log", tm.add(ONE, tm.fun("exp", x))))
    S["TolerantLoss"] = (["a", "b"], tm.sub(lg(D(tm.sub(s, a), b)), lg(D(tm.neg(a), b))))
    v = tm.sub(ONE, D(s, a2))
    S["TukeyLoss"] = (["a"], ite(tm.cmp("<=", s, a2), tm.mul(D(a2, const(3)), tm.sub(ONE, tm.mul(v, tm.mul(v, v)))), D(a2, const(3))))
    return S


def pts(name):
    r = rng("c03" + name)
    out = []
    for i in range(NPTS * 3):
        p = {"a": r.num(Fraction(1, 5), 3), "b": r.num(Fraction(1, 5), 2)}
        A = p["a"]
        p["s"] = [r.num(0, 1) * A * A, A * A + r.num(0, 20), A * A * M("0.999999"), A * A * M("1.000001"), A * A * 1000][i % 5] if i else M(0)
        if name == "TolerantLoss":
            p["s"] = p["a"] + p["b"] * [M(-1), M(3), M(20), M("36.5"), M(37), M(50), M(300), M("0.5")][i % 8]
            if p["s"] < 0:
                p["s"] = M(0)
        if name == "ArctanLoss" and i % 2:
            p["s"] = p["a"] * r.num(0, 5)
        out.append(p)
    return out


def run():
    C = Check("C03", RULE, floor=30)
    F = facts.load([os.path.join(facts.REPO, "internal/ceres/loss_function.cc"), facts.witness("loss.cc")])
    S = spec()
    concrete = [r for t, r in F.subclasses("ceres::LossFunction").items()]
    for r in concrete:
        n = r.h["q"].split("::")[-1]
        C.count("loss_classes")
        if n in S:
            guarded(C, n, lambda: simple(C, F, n, *S[n]))
        elif n in ("ScaledLoss", "LossFunctionWrapper", "ComposedLoss"):
            guarded(C, n, lambda: wrapper(C, F, n))
        else:
            C.undecided(n, "no documented formula known for this loss")
    for n in list(S) + ["ScaledLoss", "LossFunctionWrapper", "ComposedLoss"]:
        if not any(r.h["q"].split("::")[-1] == n for r in concrete):
            raise facts.AnalysisBroken("loss class %s not found" % n)
    C.assume = ["real arithmetic; the guard that keeps rho' at least the smallest normal double is outside the sampled range",
                "TolerantLoss's documented asymptotic branch is compared to 1e-13 relative accuracy"]
    return C


def simple(C, F, n, params, rho):
    ip = Interp(F)
    o = make_obj(ip, "ceres::" + n, [tm.sym(p) for p in params])
    f = method(F, "ceres::" + n, "Evaluate")
    out = array("rho", 3, "uninit")
    ip.call(f, [s, out], o)
    got = cells(out)
    want = [rho, tm.diff(rho, "s"), tm.diff(tm.diff(rho, "s"), "s")]
    P = pts(n)
    if n == "HuberLoss" or n == "TukeyLoss":    # derivatives are one-sided at the joint
        P = P
    for i in range(3):
        key = "%s/rho[%d]" % (n, i)
        if not isinstance(got[i], T):
            C.violation(key, f.loc, "component %d of the result is not written on every path" % i)
            continue
        bad = compare(got[i], want[i], P, tol=M("1e-11") if n == "TolerantLoss" else None)
        if bad:
            C.violation(key, f.loc, "%s, component %d: %s" % (n, i, bad))
        else:
            C.passed(key, tm.show(got[i], 6))
        C.count("terms")
    # continuity at the joint for the piecewise losses
    if n in ("HuberLoss", "TukeyLoss"):
        A = M("1.7")
        for i in (0, 1):
            e1 = tm.Env({"a": A, "s": A * A - M("1e-20")}).ev(got[i])
            e2 = tm.Env({"a": A, "s": A * A + M("1e-20")}).ev(got[i])
            if abs(e1 - e2) > M("1e-15"):
                C.violation("%s/joint%d" % (n, i), f.loc, "component %d jumps from %s to %s where the branches meet" % (i, fmt(e1), fmt(e2)))
            else:
                C.passed("%s/joint%d" % (n, i))


def opq(tag):
    def ev(ip, args, node):
        x = ip.load(args[0]) if isinstance(args[0], (Cell, LVal)) else args[0]
        p = ip.load(args[1]) if isinstance(args[1], (Cell, LVal)) else args[1]
        for i in range(3):
            ip.store(ip.deref(p, const(i)), tm.uf("%s%d" % (tag, i), x))
        return None
    return Opaque(tag, {"Evaluate": ev})


FNS = {"f0": lambda x: x * x * x - x + M("0.3"), "f1": lambda x: M("1.7") * x + M("0.2"), "f2": lambda x: M("0.9") - x * x,
       "g0": lambda x: x * x + M("0.4"), "g1": lambda x: M("0.6") * x - M("1.1"), "g2": lambda x: x - M("0.35")}


def wrapper(C, F, n):
    U = lambda t, i, x: tm.uf("%s%d" % (t, i), x)
    P = [{"a": M("1.7"), "s": M("0.3")}, {"a": M("0.4"), "s": M("2.25")}, {"a": M("-0.8"), "s": M(0)}, {"a": M("1"), "s": M(5)}]
    f = method(F, "ceres::" + n, "Evaluate")
    cases = []
    for own in (0, 1):
        ip = Interp(F)
        if n == "ComposedLoss":
            o = make_obj(ip, "ceres::" + n, [opq("f"), const(own), opq("g"), const(own)])
            g0 = U("g", 0, s)
            want = [U("f", 0, g0), tm.mul(U("f", 1, g0), U("g", 1, s)),
                    tm.add(tm.mul(U("f", 2, g0), tm.mul(U("g", 1, s), U("g", 1, s))), tm.mul(U("f", 1, g0), U("g", 2, s)))]
            cases.append((ip, o, want, "own%d" % own))
            continue
        for null in (0, 1):
            ip = Interp(F)
            inner = NULL if null else opq("f")
            base = [s, ONE, ZERO] if null else [U("f", i, s) for i in range(3)]
            if n == "ScaledLoss":
                o = make_obj(ip, "ceres::" + n, [inner, a, const(own)])
                want = [tm.mul(a, x) for x in base]
            else:
                o = make_obj(ip, "ceres::" + n, [inner, const(own)])
                want = base
            cases.append((ip, o, want, "own%d%s" % (own, "/null" if null else "")))
            if n == "LossFunctionWrapper":
                for null2 in (0, 1):
                    ip = Interp(F)
                    o = make_obj(ip, "ceres::" + n, [inner, const(own)])
                    ip.call(method(F, "ceres::" + n, "Reset"), [NULL if null2 else opq("g"), const(1 - own)], o)
                    cases.append((ip, o, [s, ONE, ZERO] if null2 else [U("g", i, s) for i in range(3)], "own%d/null%d/reset%d" % (own, null, null2)))
    for ip, o, want, tag in cases:
        out = array("rho", 3, "uninit")
        ip.call(f, [s, out], o)
        for i, (g, w) in enumerate(zip(cells(out), want)):
            key = "%s/%s/rho[%d]" % (n, tag, i)
            if not isinstance(g, T):
                C.violation(key, f.loc, "component %d is not written" % i)
                continue
            bad = compare(g, w, P, FNS)
            if bad:
                C.violation(key, f.loc, "%s: %s" % (n, bad))
            else:
                C.passed(key, tm.show(g, 6))
            C.count("terms")
