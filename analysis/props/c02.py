"""C02: comparisons, classification and numeric limits of jets depend on the scalar part only."""
from alg import *
import facts
from check import Check
from props.c01 import mkjet, flat, J1, J2

RULE = ("value numbering of every jet.h comparison, classification and numeric-limits operation: the derived term must equal the "
        "predicate of the scalar parts on ordinary, signed-zero, infinite and NaN operands, and must not mention any infinitesimal coefficient")

M = mpmath.mpf
NAN, INF = M("nan"), M("inf")
VALS = [M("-1.5"), M(0), M("0.25"), M("0.5"), M(3), INF, -INF, NAN]


def isn(x):
    return mpmath.isnan(x)


def cmp2(op):
    def f(a, b):
        if isn(a) or isn(b):
            return op == "!="
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b, "<>": a != b}[op]
    return f


BIN = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!=", "p_isless": "<", "p_isgreater": ">",
       "p_islessequal": "<=", "p_isgreaterequal": ">=", "p_islessgreater": "<>"}
MIX = {"lts": "<", "les": "<=", "gts": ">", "ges": ">=", "eqs": "==", "nes": "!="}
XIM = {"slt": "<", "sle": "<=", "sgt": ">", "sge": ">=", "seq": "==", "sne": "!="}
UN = {"p_isfinite": lambda a: not (isn(a) or mpmath.isinf(a)), "p_isinf": lambda a: bool(mpmath.isinf(a)), "p_isnan": lambda a: bool(isn(a)),
      "p_isnormal": lambda a: not (isn(a) or mpmath.isinf(a) or a == 0), "p_signbit": lambda a: a < 0,
      "IsFinite_": lambda a: not (isn(a) or mpmath.isinf(a)), "IsInfinite_": lambda a: bool(mpmath.isinf(a)), "IsNaN_": lambda a: bool(isn(a)),
      "IsNormal_": lambda a: not (isn(a) or mpmath.isinf(a) or a == 0)}


def run():
    C = Check("C02", RULE, floor=90)
    for std in ("c++20", "c++17"):
        F = facts.load([facts.witness("jet.cc")], ["-std=" + std])
        for depth, t in ((1, J1), (2, J2)):
            pred(C, F, t, depth, std)
        if std == "c++20":
            limits(C, F)
    C.assume = ["signed zero is not distinguished by the term domain", "std::isnan, std::isless, ... have their documented meaning"]
    return C


def evb(term, p):
    v = tm.Env(p).ev(term)
    return v


def pred(C, F, t, depth, std):
    fns = {}
    for f in F.fns.values():
        if f.q.startswith("w::Ops") and any(strip_cvref(f.types[p["t"]]) == t for p in f.params):
            fns[f.n] = f
    lf = ".a" if depth == 1 else ".a.a"
    for name, op in list(BIN.items()) + list(MIX.items()) + list(XIM.items()) + [("p_isunordered", "u")] + list(UN.items()) + [("p_fpclassify", None)]:
        f = fns.get(name)
        if f is None:
            continue
        key = "%s/order%d/%s" % (name, depth, std)
        av, names, k = [], [], 0
        try:
            ip = Interp(F)
            for p in f.params:
                if strip_cvref(f.types[p["t"]]) == t:
                    b = "fg"[k]
                    k += 1
                    av.append(mkjet(ip, t, b))
                    names.append(b + lf)
                else:
                    av.append(tm.sym("s"))
                    names.append("s")
            r = ip.call(f, av)
            r = ip.load(r) if isinstance(r, (Cell, LVal)) else r
            extra = [s for s in tm.syms(r) if s not in names]
        except (Unsupported, OutOfRange) as e:
            C.undecided(key, e)
            continue
        where = first_repo_fn(F, ip)
        where = where.loc if where else f.loc
        bad = None
        if extra:
            # mentions an infinitesimal coefficient: a violation only if the result depends on it
            rr = rng(key)
            for p in combos(names):
                base = dict(p, **{s: rr.num(-2, 2) for s in extra})
                alt = dict(p, **{s: rr.num(-2, 2) for s in extra})
                if str(evb(r, base)) != str(evb(r, alt)):
                    bad = "the result depends on the infinitesimal part (%s) at %s" % (", ".join(extra), show(p))
        if not bad:
            for p in combos(names):
                q = dict(p, **{s: M("0.7") for s in extra})
                got = evb(r, q)
                vals = [p[n] for n in names]
                if name == "p_fpclassify":
                    a = vals[0]
                    import math
                    want = 0 if isn(a) else 1 if mpmath.isinf(a) else 2 if a == 0 else 4   # glibc FP_NAN, FP_INFINITE, FP_ZERO, FP_NORMAL
                    if int(got) != want:
                        bad = "classifies %s as %s" % (fmt(a), got)
                        break
                    continue
                if name in UN:
                    want = UN[name](vals[0])
                    if name == "p_signbit" and (isn(vals[0]) or vals[0] == 0):
                        continue
                elif op == "u":
                    want = bool(isn(vals[0]) or isn(vals[1]))
                else:
                    want = cmp2(op)(vals[0], vals[1])
                if bool(got) != bool(want):
                    bad = "gives %s where the scalar predicate gives %s at %s; derived term: %s" % (bool(got), bool(want), show(p), tm.show(r, 5))
                    break
        if bad:
            C.violation("%s/order%d" % (name, depth), where, bad)
        else:
            C.passed(key, tm.show(r, 4))
        C.count("predicates")


def show(p):
    return ", ".join("%s=%s" % (k, fmt(v)) for k, v in sorted(p.items()))


def combos(names):
    names = list(dict.fromkeys(names))
    if len(names) == 1:
        return [{names[0]: v} for v in VALS]
    return [{names[0]: a, names[1]: b} for a in VALS for b in VALS]


def limits(C, F):
    import math
    for t, sc in ((J1, "double"), ("ceres::Jet<float, 2>", "float")):
        D = {f.n: f for f in F.fns.values() if f.q.startswith("w::Limits<" + t)}
        if not D:
            raise facts.AnalysisBroken("numeric_limits witness missing")
        for n, f in sorted(D.items()):
            if n.startswith("t_"):
                continue
            try:
                r, ip = derive(F, f, [])
                if n.startswith("m_"):
                    w, ip2 = derive(F, D["t_" + n[2:]], [])
                    if n == "m_is_specialized":
                        w = tm.TRUE
                    same = r is w or (isinstance(r, T) and isinstance(w, T) and tm.isc(r) and tm.isc(w) and tm.cval(r) == tm.cval(w))
                    if same:
                        C.passed("limits<%s>/%s" % (sc, n))
                    else:
                        C.violation("limits<%s>/%s" % (sc, n), "include/ceres/jet.h", "numeric_limits<Jet<%s>>::%s is %s, numeric_limits<%s>::%s is %s" % (sc, n[2:], tm.show(r), sc, n[2:], tm.show(w)))
                    continue
                g = flat(r)
                limval(C, "limits<%s>/%s" % (sc, n), n, sc, g, where_of(F, ip, f))
            except (Unsupported, OutOfRange, KeyError) as e:
                C.undecided("limits<%s>/%s" % (sc, n), e)
    D = {f.n: f for f in F.fns.values() if f.q.startswith("w::Traits<")}
    for n in ("epsilon", "quiet_NaN", "infinity", "highest", "lowest"):
        try:
            r, ip = derive(F, D[n], [])
            limval(C, "traits/" + n, {"highest": "lmax"}.get(n, n), "double", flat(r), where_of(F, ip, D[n]))
        except (Unsupported, OutOfRange) as e:
            C.undecided("traits/" + n, e)
    for n, want in (("IsComplex", 0), ("IsInteger", 0), ("IsSigned", 1), ("RequireInitialization", 1)):
        r, ip = derive(F, D[n], [])
        (C.passed if tm.isc(r) and tm.cval(r) == want else lambda k: C.violation(k, "include/ceres/jet.h", "NumTraits<Jet>::%s is %s" % (n, tm.show(r))))("traits/" + n)
    for n, want in (("digits10", None),):
        try:
            r, ip = derive(F, D["n_" + n], [])
            w, _ = derive(F, D["t_" + n], [])
            if r is w:
                C.passed("traits/" + n)
            else:
                C.violation("traits/" + n, where_of(F, ip, D["n_" + n]), "%s vs %s" % (tm.show(r), tm.show(w)))
        except (Unsupported, OutOfRange) as e:
            C.undecided("traits/" + n, e)


def where_of(F, ip, f):
    w = first_repo_fn(F, ip)
    return w.loc if w else f.loc


def limval(C, key, n, sc, g, where):
    dbl = sc == "double"
    want = {"lmin": Fraction(1, 2**1022) if dbl else Fraction(1, 2**126),
            "lmax": (2 - Fraction(1, 2**52)) * 2**1023 if dbl else (2 - Fraction(1, 2**23)) * 2**127,
            "epsilon": Fraction(1, 2**52) if dbl else Fraction(1, 2**23), "round_error": Fraction(1, 2),
            "denorm_min": Fraction(1, 2**1074) if dbl else Fraction(1, 2**149), "infinity": tm.INF, "quiet_NaN": tm.NAN, "signaling_NaN": tm.NAN}
    want["lowest"] = -want["lmax"]
    w = want[n]
    for l, v in g.items():
        ww = (w if isinstance(w, T) else const(w)) if l == ".a" else ZERO
        a, b = tm.Env({}).ev(v), tm.Env({}).ev(ww)
        ok = (isn(a) and isn(b)) or a == b
        if ok:
            C.passed(key + l)
        else:
            C.violation(key + l, where, "%s component %s is %s, expected %s" % (n, l, fmt(a), fmt(b)))
