"""C06: manifold operations obey the manifold axioms and their Jacobians are exact."""
from alg import *
import facts
from check import Check
from rotmath import *
import mpmath, os

RULE = ("value numbering of Plus, Minus, PlusJacobian, MinusJacobian and RightMultiplyByPlusJacobian of every manifold: the derived terms must satisfy "
        "Plus(x,0)=x, Minus(Plus(x,d),x)=d, Plus(x,Minus(y,x))=y, and the Jacobians must be the derivatives of the Plus/Minus terms; every access inside the declared extents")
TOL = M("1e-12")
H = M("1e-13")


class Man:
    """derived operations of one manifold object."""

    def __init__(self, F, mk, cls, n, m):
        self.F, self.n, self.m, self.cls = F, n, m, cls
        self.ip = Interp(F)
        self.obj = mk(self.ip)
        self.fn = {}
        for nm, ins, outs in (("Plus", (n, m), n), ("Minus", (n, n), m), ("PlusJacobian", (n,), n * m), ("MinusJacobian", (n,), n * m)):
            f = self.lookup(nm)
            args = [array("abc"[i], k) for i, k in enumerate(ins)]
            o = array("o", outs, "uninit")
            ip = Interp(F)
            r = ip.call(f, args + [o], self.obj)
            self.fn[nm] = (f, r, cells(o), ins)

    def lookup(self, nm):
        cs, seen = [self.cls], set()
        while cs:
            c = cs.pop(0)
            c = strip_cvref(c)
            got = [f for f in self.F.fns.values() if f.n == nm and strip_cvref(f.get("clst", "") or "") == c and f.body is not None]
            if len(got) == 1:
                return got[0]
            r = self.F.recs.get(c)
            if r is not None:
                cs += [r.types[b] if isinstance(b, int) else b for b in r.h.get("bases") or []]
        raise facts.AnalysisBroken("%s::%s not found" % (self.cls, nm))

    def size(self, nm):
        r = Interp(self.F).call(self.lookup(nm), [], self.obj)
        return int(tm.cval(r)) if isinstance(r, T) and tm.isc(r) else r

    def ev(self, nm, *vals):
        f, r, o, ins = self.fn[nm]
        p = {}
        for i, v in enumerate(vals):
            for j, x in enumerate(v):
                p["abc"[i] + str(j)] = x
        e = tm.Env(p)
        if not e.ev(r):
            return None
        return [e.ev(t) for t in o]


def eq(a, b, tol=TOL):
    return a is not None and b is not None and len(a) == len(b) and all(tm.close(x, y, tol) for x, y in zip(a, b))


def show(v):
    return "false" if v is None else "(" + ", ".join(map(fmt, v)) + ")"


def axioms(C, name, man, points, deltas, extra=None):
    loc = man.fn["Plus"][0].loc
    for nm, (f, r, o, ins) in man.fn.items():
        if man.m and any(not isinstance(x, T) for x in o):
            C.violation("%s/%s writes every output" % (name, nm), f.loc, "an output element of %s is not written" % nm)
            return
    n, m = man.n, man.m
    for what, want in (("AmbientSize", n), ("TangentSize", m)):
        k = "%s/%s" % (name, what)
        g = man.size(what)
        C.passed(k) if g == want else C.violation(k, man.lookup(what).loc, "%s is %s, expected %d" % (what, g, want))

    def ob(key, where, gen):
        key = name + "/" + key
        bad = next((b for b in gen if b), None)
        C.violation(key, where, bad) if bad else C.passed(key)
    zero = [M(0)] * m
    W = {k: v[0].loc for k, v in man.fn.items()}

    def cmpv(got, want, txt):
        return None if eq(got, want) else txt + ": got %s, expected %s" % (show(got), show(want))
    ob("Plus(x,0)=x", W["Plus"], (cmpv(man.ev("Plus", x, zero), x, "Plus(x, 0) at x=" + show(x)) for x in points))
    ob("Minus(x,x)=0", W["Minus"], (cmpv(man.ev("Minus", x, x), zero, "Minus(x, x) at x=" + show(x)) for x in points))
    ob("Minus(Plus(x,d),x)=d", W["Minus"], (cmpv(man.ev("Minus", man.ev("Plus", x, d) or x, x), d, "Minus(Plus(x, d), x) at x=%s d=%s" % (show(x), show(d))) for x in points for d in deltas))

    def inv2():
        for x, d in zip(points, deltas * len(points)):
            y = man.ev("Plus", x, d)
            if y is None:
                yield "Plus returned false"
                continue
            yield cmpv(man.ev("Plus", x, man.ev("Minus", y, x)), y, "Plus(x, Minus(y, x)) at x=%s y=%s" % (show(x), show(y)))
    ob("Plus(x,Minus(y,x))=y", W["Plus"], inv2())

    def jac(which, at):
        for x in points:
            J = man.ev(which + "Jacobian", x)
            if J is None:
                yield which + "Jacobian returned false"
                continue
            cols = m if which == "Plus" else n
            rows = n if which == "Plus" else m
            for j in range(cols):
                if which == "Plus":
                    up, dn = [M(0)] * m, [M(0)] * m
                    up[j], dn[j] = H, -H
                    a, b = man.ev("Plus", x, up), man.ev("Plus", x, dn)
                else:
                    up, dn = list(x), list(x)
                    up[j], dn[j] = x[j] + H, x[j] - H
                    a, b = man.ev("Minus", up, x), man.ev("Minus", dn, x)
                d = [(p - q) / (2 * H) for p, q in zip(a, b)]
                got = [J[i * cols + j] for i in range(rows)]
                yield cmpv2(got, d, "column %d of %sJacobian at x=%s" % (j, which, show(x)))

    def cmpv2(got, want, txt):
        return None if all(abs(g - w) < M("1e-9") * (1 + abs(w)) for g, w in zip(got, want)) else txt + ": got %s, the derivative is %s" % (show(got), show(want))
    if m:
        ob("PlusJacobian", W["PlusJacobian"], jac("Plus", points))
        ob("MinusJacobian", W["MinusJacobian"], jac("Minus", points))
    # RightMultiplyByPlusJacobian
    rm = man.lookup("RightMultiplyByPlusJacobian")
    for rows in (1, 2, 3):
        A, B = array("A", rows * n), array("B", rows * m, "uninit")
        ip = Interp(man.F)
        r = ip.call(rm, [array("a", n), const(rows), A, B], man.obj)
        got = cells(B)
        key = "%s/RightMultiplyByPlusJacobian/%d rows" % (name, rows)
        if any(not isinstance(g, T) for g in got):
            C.violation(key, rm.loc, "an output element is not written")
            continue
        bad = None
        rr = rng(key)
        for x in points[:4]:
            p = {"a%d" % i: v for i, v in enumerate(x)}
            p.update({"A%d" % i: mp(rr.num()) for i in range(rows * n)})
            e = tm.Env(p)
            J = man.ev("PlusJacobian", x) if m else []
            want = [sum(p["A%d" % (i * n + k)] * J[k * m + j] for k in range(n)) for i in range(rows) for j in range(m)]
            g = [e.ev(t) for t in got]
            if not e.ev(r) or not eq(g, want):
                bad = "product with the Jacobian is %s, expected %s at x=%s" % (show(g), show(want), show(x))
                break
        C.violation(key, rm.loc, bad) if bad else C.passed(key)
    if extra:
        for k, gen in extra:
            ob(k, W["Plus"], gen)
    C.count("manifolds")
    C.count("points", len(points))


def run():
    C = Check("C06", RULE, floor=100)
    F = facts.load([facts.witness("manifold.cc"), os.path.join(facts.REPO, "internal/ceres/manifold.cc")])
    r = rng("c06")

    def rv(n, lo=-2, hi=2):
        return [mp(r.num(lo, hi)) for _ in range(n)]
    N = max(4, NPTS // 2)
    # Euclidean
    for k in (3, -1):
        cls = "ceres::EuclideanManifold<%d>" % k
        n = 3 if k > 0 else 5

        def go(cls=cls, n=n):
            man = Man(F, lambda ip: make_obj(ip, cls, [const(n)]), cls, n, n)
            pts, ds = [rv(n) for _ in range(N)], [rv(n) for _ in range(4)]
            axioms(C, cls, man, pts, ds, [("Plus adds", (None if eq(man.ev("Plus", x, d), [a + b for a, b in zip(x, d)]) else "Plus(x,d) is not x+d" for x in pts for d in ds))])
        guarded(C, cls, go)
    # Subset, every mask of 4 coordinates
    for mask in range(16):
        name = "ceres::SubsetManifold"
        const_idx = [i for i in range(4) if mask >> i & 1]

        def go(const_idx=const_idx):
            m = 4 - len(const_idx)

            def mk(ip):
                v = Vec(Region([Cell(const(i)) for i in reversed(const_idx)], "vector"), "int")
                return make_obj(ip, name, [const(4), v])
            man = Man(F, mk, name, 4, m)
            pts, ds = [rv(4) for _ in range(3)], [rv(m) for _ in range(3)]
            axioms(C, "%s constant=%s" % (name, const_idx), man, pts, ds,
                   [("constant coordinates stay", (None if all(man.ev("Plus", x, d)[i] == x[i] for i in const_idx) else "a constant coordinate changed" for x in pts for d in ds))])
        guarded(C, "%s constant=%s" % (name, const_idx), go)
    # Quaternions
    for name, o in (("ceres::QuaternionManifold", (0, 1, 2, 3)), ("ceres::EigenQuaternionManifold", (3, 0, 1, 2))):
        def go(name=name, o=o):
            man = Man(F, lambda ip: make_obj(ip, name, []), name, 4, 3)

            def st(q):
                v = [None] * 4
                for s, x in zip(o, q):
                    v[s] = x
                return v
            pts = [st(unit(rv(4))) for _ in range(N)] + [st([M(1), M(0), M(0), M(0)]), st([M(0), M(0), M(1), M(0)])]
            ds = [rv(3, -1, 1) for _ in range(4)] + [[M("1e-20"), M(0), M(0)], [M("1.9"), M("-1.2"), M("1.3")], [M(0), M("-3.1"), M(0)]]

            def ref():
                for x in pts:
                    for d in ds:
                        t = mpmath.sqrt(sum(a * a for a in d))
                        q = [mpmath.cos(t)] + [mpmath.sin(t) / t * a for a in d]
                        w = st(quat_mul(q, [x[s] for s in o]))
                        yield None if eq(man.ev("Plus", x, d), w) else "Plus is not the product with the exponential of d at x=%s d=%s" % (show(x), show(d))
            axioms(C, name, man, pts, ds, [("Plus is the exponential map", ref())])
        guarded(C, name, go)
    # Sphere
    for k in (2, 3, 4, -1):
        cls = "ceres::SphereManifold<%d>" % k
        n = k if k > 0 else 3

        def go(cls=cls, n=n, k=k):
            man = Man(F, lambda ip: make_obj(ip, cls, [] if k > 0 else [const(n)]), cls, n, n - 1)
            pts = [rv(n) for _ in range(N)]
            for s in (1, -1):
                v = rv(n)
                v[-1] = s * abs(v[-1])
                pts.append(v)
                pts.append([M(0)] * (n - 1) + [M(s)])
                pts.append([M(0)] * (n - 1) + [M(s) * M("2.5")])
            v = rv(n)
            v[-1] = M(0)
            pts.append(v)
            ds = [[x / 2 for x in rv(n - 1)] for _ in range(3)] + [[M("2.9")] + [M(0)] * (n - 2)]

            def nrm(v):
                return mpmath.sqrt(sum(a * a for a in v))

            def geo():
                for x in pts:
                    for d in ds:
                        y = man.ev("Plus", x, d)
                        c = sum(a * b for a, b in zip(x, y)) / nrm(x) ** 2
                        if not tm.close(nrm(y), nrm(x), TOL):
                            yield "Plus leaves the sphere: |x|=%s, |Plus|=%s at x=%s d=%s" % (fmt(nrm(x)), fmt(nrm(y)), show(x), show(d))
                        elif not tm.close(c, mpmath.cos(nrm(d)), TOL):
                            yield "Plus does not move by the angle |d| at x=%s d=%s" % (show(x), show(d))
            axioms(C, cls, man, pts, ds, [("Plus moves by |d| on the sphere", geo())])
            # the antipode is at distance pi
            key = cls + "/Minus of the antipode"
            bad = None
            for x in pts[:6]:
                y = [-a for a in x]
                g = man.ev("Minus", y, x)
                if g is None or not tm.close(nrm(g), mpmath.pi, M("1e-9")):
                    bad = "Minus(-x, x) is %s, its length must be pi, at x=%s" % (show(g), show(x))
            C.violation(key, man.fn["Minus"][0].loc, bad) if bad else C.passed(key)
        guarded(C, cls, go)
    # numerical stability of the reflection next to the poles (the only place cancellation can occur), 53-bit evaluation of the terms
    def poles():
        cls = "ceres::SphereManifold<3>"
        man = Man(F, lambda ip: make_obj(ip, cls, []), cls, 3, 2)
        for s in (1, -1):
            key = "%s/reflection is stable next to the pole %+d" % (cls, s)
            bad = None
            for eps in ("3e-8", "1e-6", "1e-5", "1e-3"):
                x = [M(eps), M(eps) / 3, M(s)]
                d = [M("0.4"), M("-0.7")]
                want = man.ev("Plus", x, d)
                with mpmath.workprec(53):
                    got = man.ev("Plus", [+a for a in x], [+a for a in d])
                if got is None or any(abs(a - b) > M("1e-9") for a, b in zip(got, want)):
                    bad = "in double precision Plus(x, d) is %s, exactly %s, at x=%s" % (show(got), show(want), show(x))
                    break
            C.violation(key, man.fn["Plus"][0].loc, bad) if bad else C.passed(key)
    guarded(C, "ceres::SphereManifold stability", poles)

    # failure of the underlying operation is reported
    def fails():
        o1 = Interp(F).call(F.one("w::make_fallible"), [])
        o = Interp(F).call(F.one("w::make_fprod"), [])
        ld = lambda x: x if isinstance(x, Obj) else Interp(F).load(Interp(F).deref(x))
        o, o1 = ld(o), ld(o1)
        for nm, lim, ob, k in [(n_, l, o, 3) for n_, l in (("Plus", 1), ("PlusJacobian", 2), ("Minus", 3), ("MinusJacobian", 4))] + [("RightMultiplyByPlusJacobian", 2, o1, 1)]:
            cls = strip_cvref(ob.cls)
            mm = Man.__new__(Man)
            mm.F, mm.cls = F, cls
            f = mm.lookup(nm)
            a, b, out = array("a", k), array("b", k), array("o", k * k, "uninit")
            args = {"Plus": [a, b, out], "Minus": [b, a, out], "RightMultiplyByPlusJacobian": [a, const(1), b, out]}.get(nm, [a, out])
            r_ = Interp(F).call(f, args, ob)
            key = "%s/%s reports failure" % ("ProductManifold" if k == 3 else "Manifold", nm)
            bad = None
            for bits in range(2 ** k):
                p = {"b%d" % i: M(i + 1) for i in range(k)}
                p.update({"a%d" % i: M("4.5") - (0 if bits >> i & 1 else M(4)) for i in range(k)})
                got = tm.Env(p).ev(r_)
                if bool(got) != (bits == 2 ** k - 1):
                    bad = "returns %s when the operation of factor(s) %s fails" % (bool(got), [i for i in range(k) if not bits >> i & 1])
            C.violation(key, f.loc, bad) if bad else C.passed(key)
    guarded(C, "failures", fails)
    # Line
    for k in (2, 3, -1):
        cls = "ceres::LineManifold<%d>" % k
        n = k if k > 0 else 3

        def go(cls=cls, n=n, k=k):
            man = Man(F, lambda ip: make_obj(ip, cls, [] if k > 0 else [const(n)]), cls, 2 * n, 2 * (n - 1))
            pts = [rv(2 * n) for _ in range(N)]
            for s in (1, -1):
                pts.append(rv(n) + [M(0)] * (n - 1) + [M(s)])
                v = rv(2 * n)
                v[-1] = s * abs(v[-1])
                pts.append(v)
            z = [M(0)] * (n - 1)
            ds = [[x / 2 for x in rv(2 * (n - 1))] for _ in range(3)] + [z + [x / 2 for x in rv(n - 1)], rv(n - 1) + z]

            def geo():
                for x in pts:
                    for d in ds:
                        y = man.ev("Plus", x, d)
                        o, dr = x[:n], x[n:]
                        mv = [a - b for a, b in zip(y[:n], o)]
                        if abs(sum(a * b for a, b in zip(mv, dr))) > M("1e-11"):
                            yield "the origin moves along the line at x=%s d=%s" % (show(x), show(d))
            axioms(C, cls, man, pts, ds, [("origin moves perpendicular to the line", geo())])
        guarded(C, cls, go)
    # Product of three, autodiff
    def prod():
        f = F.one("w::make_prod")
        ip = Interp(F)
        o = ip.call(f, [])
        cls = strip_cvref(o.cls) if isinstance(o, Obj) else None
        o = o if isinstance(o, Obj) else ip.load(ip.deref(o))
        cls = strip_cvref(o.cls)
        man = Man(F, lambda ip_: o, cls, 9, 7)
        pts = [rv(2) + unit(rv(4)) + rv(3) for _ in range(N)]
        ds = [[x / 2 for x in rv(7)] for _ in range(3)]
        axioms(C, "ceres::ProductManifold", man, pts, ds)
    guarded(C, "ceres::ProductManifold", prod)

    def auto():
        f = F.one("w::make_auto")
        ip = Interp(F)
        o = ip.call(f, [])
        o = o if isinstance(o, Obj) else ip.load(ip.deref(o))
        man = Man(F, lambda ip_: o, strip_cvref(o.cls), 3, 2)
        pts = [rv(3, 1, 2) for _ in range(N)]
        name = "ceres::AutoDiffManifold"
        for which, co in (("Plus", 0), ("Minus", 2), ("PlusJacobian", 0), ("MinusJacobian", 2)):
            key = "%s/%s reports failure" % (name, which)
            fn_, r_, o_, ins = man.fn[which]
            bad = None
            for sgn in (1, -1):
                p = {c + str(i): M(1) + M(i) / 7 for c in "abc" for i in range(3)}
                p["%s%d" % ("b" if which == "Minus" else "a", co)] = M(sgn)
                if bool(tm.Env(p).ev(r_)) != (sgn > 0):
                    bad = "returns %s although the functor returns %s" % (sgn < 0, sgn > 0)
            C.violation(key, fn_.loc, bad) if bad else C.passed(key)
        for which in ("Plus", "Minus"):
            key = "%s/%sJacobian" % (name, which)
            bad = None
            fn_, r_, o_, ins = man.fn[which + "Jacobian"]
            if any(not isinstance(t, T) for t in o_):
                C.violation(key, fn_.loc, "an element of the Jacobian is not written")
                continue
            for x in pts:
                J = man.ev(which + "Jacobian", x)
                cols = 2 if which == "Plus" else 3
                for j in range(cols):
                    if which == "Plus":
                        up, dn = [M(0)] * 2, [M(0)] * 2
                        up[j], dn[j] = H, -H
                        a, b = man.ev("Plus", x, up), man.ev("Plus", x, dn)
                    else:
                        up, dn = list(x), list(x)
                        up[j], dn[j] = x[j] + H, x[j] - H
                        a, b = man.ev("Minus", up, x), man.ev("Minus", dn, x)
                    d = [(p - q) / (2 * H) for p, q in zip(a, b)]
                    got = [J[i * cols + j] for i in range(len(d))]
                    if not all(abs(g - w) < M("1e-9") * (1 + abs(w)) for g, w in zip(got, d)):
                        bad = "column %d at x=%s: got %s, the derivative is %s" % (j, show(x), show(got), show(d))
            C.violation(key, fn_.loc, bad) if bad else C.passed(key)
    guarded(C, "ceres::AutoDiffManifold", auto)
    C.assume = ["real arithmetic", "points on the manifold (unit quaternions, non-zero sphere points)", "identity of terms decided by evaluation of the derived terms at 40 digits"]
    return C
