"""C01: every Jet operation carries the exact derivative of its scalar part."""
from alg import *
import facts
from check import Check

RULE = ("value numbering of every jet.h operation (instantiated for Jet<double,2> and, to second order, "
        "Jet<Jet<double,1>,2>): the term of the scalar part must equal the mathematical function and the term of "
        "every infinitesimal coefficient must equal the chain rule applied to it")

J1 = "ceres::Jet<double, 2>"
J2 = "ceres::Jet<ceres::Jet<double, 1>, 2>"


def half():
    return const(Fraction(1, 2))


def F1(n):
    return lambda f: tm.fun(n, f)


def sq(x):
    return tm.mul(x, x)


def sgn(x):
    return ite(tm.cmp("<", x, ZERO), const(-1), ONE)


def fmax_(f, g):
    return ite(tm.cmp("<", f, g), g, ite(tm.cmp("<", g, f), f, tm.mul(half(), tm.add(f, g))))


def fmin_(f, g):
    return ite(tm.cmp("<", g, f), g, ite(tm.cmp("<", f, g), f, tm.mul(half(), tm.add(f, g))))


ANY, POS, UNIT, GE1, NZ = ("any",), ("pos",), ("unit",), ("ge1",), ("nz",)

# name -> (spec on scalar parts, domain per argument)
SPEC = {
    "pos": (lambda f: f, [ANY]), "neg": (tm.neg, [ANY]),
    "abs": (lambda f: ite(tm.cmp("<", f, ZERO), tm.neg(f), f), [NZ]),
    "log": (F1("log"), [POS]), "log10": (F1("log10"), [POS]), "log1p": (F1("log1p"), [POS]), "log2": (F1("log2"), [POS]),
    "exp": (F1("exp"), [ANY]), "expm1": (F1("expm1"), [ANY]), "exp2": (F1("exp2"), [ANY]),
    "sqrt": (F1("sqrt"), [POS]), "cbrt": (F1("cbrt"), [NZ]),
    "cos": (F1("cos"), [ANY]), "acos": (F1("acos"), [UNIT]), "sin": (F1("sin"), [ANY]), "asin": (F1("asin"), [UNIT]),
    "tan": (F1("tan"), [UNIT]), "atan": (F1("atan"), [ANY]), "sinh": (F1("sinh"), [ANY]), "cosh": (F1("cosh"), [ANY]),
    "tanh": (F1("tanh"), [ANY]), "floor": (F1("floor"), [ANY]), "ceil": (F1("ceil"), [ANY]),
    "erf": (F1("erf"), [ANY]), "erfc": (F1("erfc"), [ANY]), "norm": (sq, [ANY]),
    "add": (tm.add, [ANY, ANY]), "sub": (tm.sub, [ANY, ANY]), "mul": (tm.mul, [ANY, ANY]), "div": (tm.div, [ANY, NZ]),
    "adds": (tm.add, [ANY, "S"]), "subs": (tm.sub, [ANY, "S"]), "muls": (tm.mul, [ANY, "S"]), "divs": (tm.div, [ANY, "S"]),
    "sadd": (tm.add, ["S", ANY]), "ssub": (tm.sub, ["S", ANY]), "smul": (tm.mul, ["S", ANY]), "sdiv": (tm.div, ["S", NZ]),
    "cadd": (tm.add, [ANY, ANY]), "csub": (tm.sub, [ANY, ANY]), "cmul": (tm.mul, [ANY, ANY]), "cdiv": (tm.div, [ANY, NZ]),
    "cadds": (tm.add, [ANY, "S"]), "csubs": (tm.sub, [ANY, "S"]), "cmuls": (tm.mul, [ANY, "S"]), "cdivs": (tm.div, [ANY, "S"]),
    "selfmul": (sq, [ANY]), "selfdiv": (lambda f: tm.div(f, f), [NZ]),
    "hypot2": (lambda f, g: tm.fun("sqrt", tm.add(sq(f), sq(g))), [NZ, NZ]),
    "hypot3": (lambda f, g, h: tm.fun("sqrt", tm.add(tm.add(sq(f), sq(g)), sq(h))), [NZ, NZ, NZ]),
    "fma3": (lambda f, g, h: tm.add(tm.mul(f, g), h), [ANY, ANY, ANY]),
    "copysign2": (lambda f, g: tm.mul(sgn(g), tm.mul(sgn(f), f)), [NZ, NZ]),
    "fmax2": (fmax_, [ANY, ANY]), "fmin2": (fmin_, [ANY, ANY]),
    "fdim2": (lambda f, g: ite(tm.cmp("<", g, f), tm.sub(f, g), ZERO), [ANY, ANY]),
    "atan2_": (lambda f, g: tm.fun("atan2", f, g), [NZ, NZ]),
    "lerp3": (lambda a, b, t: tm.add(a, tm.mul(t, tm.sub(b, a))), [ANY, ANY, ANY]),
    "midpoint2": (lambda f, g: tm.mul(half(), tm.add(f, g)), [ANY, ANY]),
    "powjs": (lambda f, s: tm.fun("pow", f, s), [POS, "S"]),
    "powsj": (lambda s, f: tm.fun("pow", s, f), ["SP", ANY]),
    "powjj": (lambda f, g: tm.fun("pow", f, g), [POS, ANY]),
    "ctor0": (lambda: ZERO, []), "ctor1": (lambda s: s, ["S"]),
    "besselJ0": (lambda f: tm.fun("jn", ZERO, f), [POS]), "besselJ1": (lambda f: tm.fun("jn", ONE, f), [POS]),
    "besselJn0": (lambda f: tm.fun("jn", ZERO, f), [POS]), "besselJn1": (lambda f: tm.fun("jn", ONE, f), [POS]),
    "besselJn2": (lambda f: tm.fun("jn", const(2), f), [POS]), "besselJn3": (lambda f: tm.fun("jn", const(3), f), [POS]),
}
NAMES = "fgh"


def draw(r, dom):
    if dom == POS or dom == "SP":
        return r.num(Fraction(1, 10), 3)
    if dom == UNIT:
        return r.num(Fraction(-9, 10), Fraction(9, 10))
    if dom == GE1:
        return r.num(Fraction(11, 10), 3)
    return r.num(-2, 2)


def mkjet(ip, t, n):
    o = Obj(t)
    ip.init_fields(o, ip.F.recs[t])
    inner = split_targs(t)[0]

    def val(n):
        return mkjet(ip, inner, n) if inner.startswith("ceres::Jet") else tm.sym(n)
    o.f["a"].v = val(n + ".a")
    for i, c in enumerate(o.f["v"].v.cells()):
        c.v = val(n + ".v%d" % i)
    return o


def flat(v, pre=""):
    """leaf terms of a (nested) jet value."""
    if isinstance(v, T):
        return {pre: v}
    if isinstance(v, Obj) and "v" in v.f:
        out = flat(v.f["a"].v, pre + ".a")
        for i, c in enumerate(v.f["v"].v.cells()):
            out.update(flat(c.v, pre + ".v%d" % i))
        return out
    raise Unsupported("jet result %r" % (v,))


def lift_spec(S, args, depth):
    """expected leaves: S is a term in base symbols; args = [(base, kind)]."""
    if depth == 1:
        out = {".a": S}
        for i in range(2):
            e = ZERO
            for b, jet in args:
                if jet:
                    e = tm.add(e, tm.mul(tm.diff(S, b + ".a"), tm.sym(b + ".v%d" % i)))
            out[".v%d" % i] = e
        return out
    # second order: base symbols b.a.a; first level dual b.a.v0, second level b.v{i}.a, b.v{i}.v0
    B = lambda b: b + ".a.a"
    out = {".a.a": S}
    d = {b: tm.diff(S, bs) for b, jet in args for bs in [B(b) if jet else b + ".a"]}
    e = ZERO
    for b, jet in args:
        e = tm.add(e, tm.mul(d[b], tm.sym(b + (".a.v0" if jet else ".v0"))))
    out[".a.v0"] = e
    for i in range(2):
        e1 = e2 = ZERO
        for b, jet in args:
            if not jet:
                continue
            e1 = tm.add(e1, tm.mul(d[b], tm.sym("%s.v%d.a" % (b, i))))
            e2 = tm.add(e2, tm.mul(d[b], tm.sym("%s.v%d.v0" % (b, i))))
            for b2, jet2 in args:
                dd = tm.diff(d[b], B(b2) if jet2 else b2 + ".a")
                e2 = tm.add(e2, tm.mul(dd, tm.mul(tm.sym(b2 + (".a.v0" if jet2 else ".v0")), tm.sym("%s.v%d.a" % (b, i)))))
        out[".v%d.a" % i] = e1
        out[".v%d.v0" % i] = e2
    return out


def run():
    C = Check("C01", RULE, floor=150)
    for std in ("c++20", "c++17"):
        decide(C, facts.load([facts.witness("jet.cc")], ["-std=" + std]), std)
    C.cover["jet_types"] = [J1, J2]
    C.assume = ["real arithmetic (rounding is not modelled)", "equality of terms decided by identity testing with 40 digits",
                "Eigen and libm have their documented meaning"]
    return C


def decide(C, F, std):
    only = None if std == "c++20" else ("fmax2", "fmin2", "fdim2", "powjj", "erf")
    for depth, t in ((1, J1), (2, J2)):
        fns = {f.n: f for f in F.fns.values() if f.q.startswith("w::Ops") and any(strip_cvref(f.types[p["t"]]) == t for p in f.params) or (f.q.startswith("w::Ops<" + t) and f.n.startswith("ctor"))}
        for name, (spec, doms) in SPEC.items():
            f = fns.get(name)
            if f is None or (only and name not in only):
                continue
            one(C, F, f, name, spec, doms, depth, t)
        if depth == 1 and not only:
            unit_ctor(C, F, fns)
            special(C, F, fns)


def points_for(name, args, doms, vals, depth):
    r = rng("c01" + name)
    pts = []
    for k in range(NPTS):
        p = {}
        for (b, jet), dom in zip(args, doms):
            for s in vals:
                if s == b or s.startswith(b + "."):
                    p[s] = r.num(-2, 2)
            base = (b + ".a.a" if depth == 2 else b + ".a") if jet else (b + ".a" if depth == 2 else b)
            p[base] = draw(r, dom)
        pts.append(p)
    base = lambda b: b + (".a.a" if depth == 2 else ".a")
    if name in ("fmax2", "fmin2"):
        for k in range(3):      # ties
            p = dict(pts[k])
            p[base("g")] = p[base("f")]
            pts.append(p)
    if name in ("abs", "cbrt", "copysign2", "hypot2", "hypot3", "atan2_", "div", "selfdiv"):
        for k in range(4):      # make sure both signs are present
            p = dict(pts[k])
            p[base("f")] = -p[base("f")]
            pts.append(p)
    if name in ("copysign2", "atan2_"):
        for k in range(4):
            p = dict(pts[k])
            p[base("g")] = -p[base("g")]
            pts.append(p)
    return pts


def one(C, F, f, name, spec, doms, depth, t):
    ip = Interp(F)
    args, av, specargs = [], [], []
    k = 0
    try:
        for p in f.params:
            pt = strip_cvref(f.types[p["t"]])
            if pt == t:
                b = NAMES[k]
                k += 1
                args.append((b, True))
                av.append(mkjet(ip, t, b))
                specargs.append(tm.sym(b + (".a.a" if depth == 2 else ".a")))
            else:
                b = "s"
                args.append((b, False))
                if pt.startswith("ceres::Jet"):
                    av.append(mkjet(ip, pt, b))
                    specargs.append(tm.sym("s.a"))
                else:
                    av.append(tm.sym("s"))
                    specargs.append(tm.sym("s"))
        r = ip.call(f, av)
        r = ip.load(r) if isinstance(r, (Cell, LVal)) else r
        got = flat(r)
    except (Unsupported, OutOfRange) as e:
        if isinstance(e, OutOfRange):
            C.violation("%s/order%d" % (name, depth), f.loc, "out-of-range access: " + e.msg)
        else:
            C.undecided("%s/order%d" % (name, depth), e)
        return
    S = spec(*specargs)
    want = lift_spec(S, args, depth)
    syms = set()
    for v in list(got.values()) + list(want.values()):
        syms |= tm.syms(v)
    for b, jet in args:
        if not jet and depth == 1:
            syms.add("s")
    pts = points_for(name, args, doms, syms, depth)
    lo = first_repo_fn(F, ip)
    where = lo.loc if lo else f.loc
    C.count("operations")
    for leaf in want:
        key = "%s/order%d%s" % (name, depth, leaf)
        try:
            bad = compare(got[leaf], want[leaf], pts)
        except tm.Undefined as e:
            C.undecided(key, e)
            continue
        if bad:
            C.violation(key, where, "jet operation '%s', component %s: %s\n analysed: %s" % (name, leaf, bad, "; ".join(repo_locs(F, ip))))
        else:
            C.passed(key, tm.show(got[leaf], 4))
    C.sample("%s order %d: %s" % (name, depth, {l: tm.show(g, 4) for l, g in got.items()}))


def unit_ctor(C, F, fns):
    for k in (0, 1):
        f = [g for g in F.fns.values() if g.n == "ctork%d" % k and g.q.startswith("w::Ops<" + J1)]
        if not f:
            continue
        try:
            r, ip = derive(F, f[0], [tm.sym("s")])
            g = flat(r)
        except Unsupported as e:
            C.undecided("ctork%d" % k, e)
            continue
        want = {".a": tm.sym("s"), ".v0": const(k == 0), ".v1": const(k == 1)}
        for l, w in want.items():
            w = ONE if w is tm.TRUE else ZERO if w is tm.FALSE else w
            bad = compare(g[l], w, [{"s": Fraction(7, 3)}])
            (C.violation("ctork%d%s" % (k, l), first_repo_fn(F, ip).loc, bad) if bad else C.passed("ctork%d%s" % (k, l)))


NF = "nonfinite"


def special(C, F, fns):
    """documented special cases (jet.h comments)."""
    M = mpmath.mpf
    nan = mpmath.mpf("nan")
    V = {"f.v0": M("0.7"), "f.v1": M("-1.3"), "g.v0": M("0.4"), "g.v1": M("1.9")}
    cases = []

    def case(fn, vals, a, v0, v1):
        cases.append((fn, dict(V, **vals), (a, v0, v1)))
    z = M(0)
    # pow(jet, jet)
    case("powjj", {"f.a": z, "g.a": M(2)}, z, z, z)
    case("powjj", {"f.a": z, "g.a": M("1.5")}, z, z, z)
    case("powjj", {"f.a": z, "g.a": M(1)}, z, V["f.v0"], V["f.v1"])
    case("powjj", {"f.a": z, "g.a": M("0.5")}, z, NF, NF)
    case("powjj", {"f.a": z, "g.a": M("-1.5")}, NF, NF, NF)
    case("powjj", {"f.a": z, "g.a": z}, M(1), NF, NF)
    case("powjj", {"f.a": M(-2), "g.a": M(3), "g.v0": z, "g.v1": z}, M(-8), 12 * V["f.v0"], 12 * V["f.v1"])
    case("powjj", {"f.a": M(-2), "g.a": M(-1), "g.v0": z, "g.v1": z}, M("-0.5"), -V["f.v0"] / 4, -V["f.v1"] / 4)
    case("powjj", {"f.a": M(-2), "g.a": M(3), "g.v1": z}, M(-8), NF, 12 * V["f.v1"])
    case("powjj", {"f.a": M(-2), "g.a": M(3)}, M(-8), NF, NF)
    case("powjj", {"f.a": M(-2), "g.a": M("0.5")}, NF, NF, NF)
    # pow(scalar, jet): the witness calls its jet f
    case("powsj", {"s": z, "f.a": M(2)}, z, z, z)
    case("powsj", {"s": z, "f.a": M("0.5")}, z, z, z)
    case("powsj", {"s": M(-2), "f.a": M(3), "f.v0": z, "f.v1": z}, M(-8), z, z)
    case("powsj", {"s": M(-2), "f.a": M(3), "f.v1": z}, M(-8), NF, z)
    case("powsj", {"s": M(-2), "f.a": M("0.5")}, NF, NF, NF)
    case("powsj", {"s": z, "f.a": z}, M(1), NF, NF)
    case("powsj", {"s": z, "f.a": M(-1)}, NF, NF, NF)
    # NaN as missing data
    case("fmax2", {"f.a": nan, "g.a": M(2)}, M(2), V["g.v0"], V["g.v1"])
    case("fmax2", {"f.a": M(3), "g.a": nan}, M(3), V["f.v0"], V["f.v1"])
    case("fmin2", {"f.a": nan, "g.a": M(2)}, M(2), V["g.v0"], V["g.v1"])
    case("fmin2", {"f.a": M(3), "g.a": nan}, M(3), V["f.v0"], V["f.v1"])
    case("fdim2", {"f.a": nan, "g.a": M(2)}, NF, None, None)
    case("fdim2", {"f.a": M(2), "g.a": nan}, NF, None, None)
    case("fdim2", {"f.a": M(2), "g.a": M(2)}, z, z, z)
    case("copysign2", {"f.a": M(2), "g.a": z}, None, NF, NF)
    for i, (fn, vals, (a, v0, v1)) in enumerate(cases):
        f = fns.get(fn)
        if f is None:
            continue
        ip = Interp(F)
        av = []
        k = 0
        try:
            for p in f.params:
                if strip_cvref(f.types[p["t"]]) == J1:
                    av.append(mkjet(ip, J1, NAMES[k]))
                    k += 1
                else:
                    av.append(tm.sym("s"))
            r = ip.call(f, av)
            got = flat(r)
        except Unsupported as e:
            C.undecided("special/%s/%d" % (fn, i), e)
            continue
        for l, w in ((".a", a), (".v0", v0), (".v1", v1)):
            if w is None:
                continue
            key = "special/%s/%d%s" % (fn, i, l)
            try:
                bad = compare(got[l], lambda e, w=w: w, [vals])
            except tm.Undefined as e:
                C.undecided(key, e)
                continue
            if bad:
                C.violation(key, first_repo_fn(F, ip).loc, "documented special case of '%s': %s" % (fn, bad))
            else:
                C.passed(key)
