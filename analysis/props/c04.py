"""C04: rotation representations convert into each other exactly, for every storage order and layout."""
from alg import *
import facts
from check import Check
from rotmath import *
import mpmath

RULE = ("value numbering of every rotation.h conversion (both quaternion orders, row/column-major and strided matrices, derivatives through jets): "
        "each output cell's term must equal the reference rotation algebra; every access must stay inside the declared storage")
ORD = {"ceres::CeresQuaternionOrder": (0, 1, 2, 3), "ceres::EigenQuaternionOrder": (3, 0, 1, 2)}
TOL = M("1e-12")


class W:
    """entry functions of one witness class."""

    def __init__(self, F, prefix):
        self.f = {f.n: f for f in F.fns.values() if f.q.startswith(prefix) and not f.get("ctor")}
        if not self.f:
            raise facts.AnalysisBroken("witness class %s missing" % prefix)
        self.F = F

    def run(self, name, *args):
        ip = Interp(self.F)
        f = self.f[name]
        r = ip.call(f, list(args))
        return r, ip

    def where(self, ip, name):
        w = [self.F.fns[u] for u in ip.touched if u in self.F.fns and self.F.fns[u].f.startswith(facts.REPO)]
        w.sort(key=lambda f: -len(str(f.h.get("n"))))
        want = [f for f in w if f.f.endswith("rotation.h") and "Adapter" not in f.n and f.n != "operator()"]
        w = want or w
        return w[0].loc if w else self.f[name].loc


def out(n):
    return array("out", n, "uninit")


def check_cells(C, key, where, got, want, pts, names=None):
    """got: terms; want(p) -> list of numbers (None = unspecified)."""
    for i, g in enumerate(got):
        if g is UNINIT or not isinstance(g, T):
            C.violation("%s[%d]" % (key, i), where, "output %d is not written" % i)
            return
    for p in pts:
        e = tm.Env(p)
        w = want(p)
        for i, (g, ww) in enumerate(zip(got, w)):
            if ww is None:
                continue
            v = e.ev(g)
            if not tm.close(v, ww, TOL):
                C.violation("%s[%d]" % (key, i), where, "output %d is %s, the rotation algebra gives %s at %s" % (
                    i, fmt(v), fmt(ww), ", ".join("%s=%s" % (k, fmt(x)) for k, x in sorted(p.items()))))
                return
    C.passed(key, "%d outputs" % len(got))
    C.count("conversions")
    C.count("outputs", len(got))


def vec(p, n, k):
    return [p["%s%d" % (n, i)] for i in range(k)]


def P(tag, spec, n=None):
    r = rng("c04" + tag)
    return [{"%s%d" % (k, i): mp(r.num(-2, 2)) for k, c in spec.items() for i in range(c)} for _ in range(n or NPTS)]


def putq(o, q, name="q"):
    """symbol values for a (w,x,y,z) quaternion stored in order o."""
    d = {}
    for slot, v in zip(o, q):
        d["%s%d" % (name, slot)] = v
    return d


def getq(o, p, name="q"):
    return [p["%s%d" % (name, s)] for s in o]


def lay(R, how):
    if how == "row":
        return [R[i][j] for i in range(3) for j in range(3)]
    if how == "col":
        return [R[i][j] for j in range(3) for i in range(3)]
    v = [None] * 12
    for i in range(3):
        for j in range(3):
            v[4 * i + j] = R[i][j]
    return v


def run():
    C = Check("C04", RULE, floor=60)
    F = facts.load([facts.witness("rotation.cc")])
    for on, o in ORD.items():
        w = W(F, "w::Quat<%s, double>" % on)
        sh = on.split("::")[1]
        guarded(C, sh, lambda: quats(C, F, w, o, sh))
        wd = W(F, "w::QuatD<%s>" % on)
        for nm, how, n in (("r2q", "col", 9), ("r2q_row", "row", 9), ("r2q_str", "str", 12)):
            guarded(C, "%s/%s" % (sh, nm), lambda: mat2quat(C, wd, o, "%s/%s" % (sh, nm), nm, how, n))
        wj = W(F, "w::Quat<%s, ceres::Jet<double, 4>>" % on)
        guarded(C, sh + "/jets", lambda: jets(C, F, wj, w, o, sh))
    guarded(C, "angle-axis", lambda: aas(C, F))
    C.assume = ["real arithmetic", "identity of terms decided by evaluation of the derived terms at 40 digits"]
    return C


def quats(C, F, w, o, sh):
    # A: angle axis -> quaternion
    q = out(4)
    r, ip = w.run("aa2q", array("a", 3), q)

    def want(p):
        v = [None] * 4
        for s, x in zip(o, aa_quat(vec(p, "a", 3))):
            v[s] = x
        return v
    pts = P("aa2q", {"a": 3}) + [{"a0": M(0), "a1": M(0), "a2": M(0)}, {"a0": M(0), "a1": M("1e-30"), "a2": M(0)}, {"a0": M(3), "a1": M(-2), "a2": M(4)}]
    check_cells(C, sh + "/AngleAxisToQuaternion", w.where(ip, "aa2q"), cells(q), want, pts)
    # B: quaternion -> angle axis
    a = out(3)
    r, ip = w.run("q2aa", array("q", 4), a)
    pts, ref = [], {}
    for p in P("q2aa", {"a": 3}, NPTS + 4) + [{"a0": M(0), "a1": M(0), "a2": M(0)}, {"a0": M("1e-20"), "a1": M(0), "a2": M(0)}, {"a0": M("3.1"), "a1": M(0), "a2": M("0.2")}]:
        v = vec(p, "a", 3)
        if mpmath.sqrt(sum(x * x for x in v)) >= mpmath.pi:
            v = [x / 3 for x in v]
        for sg in (1, -1):
            d = putq(o, [sg * x for x in aa_quat(v)])
            pts.append(d)
            ref[id(d)] = v
    check_cells(C, sh + "/QuaternionToAngleAxis", w.where(ip, "q2aa"), cells(a), lambda p: ref[id(p)], pts)
    # C: quaternion -> (scaled) rotation matrix, three layouts
    for nm, how, n in (("q2sr", "row", 9), ("q2sr_col", "col", 9), ("q2sr_str", "str", 12), ("q2r", "row", 9), ("q2r_col", "col", 9), ("q2r_str", "str", 12)):
        R = array("R", n, [ZERO] * n) if how == "str" else out(n)
        r, ip = w.run(nm, array("q", 4), R)
        norm = not nm.startswith("q2sr")

        def want(p):
            qq = getq(o, p)
            m = quat_mat(qq)
            if norm:
                s = sum(x * x for x in qq)
                m = [[x / s for x in row] for row in m]
            v = lay(m, how)
            return [M(0) if x is None else x for x in v]
        check_cells(C, "%s/%s" % (sh, {"q2s": "QuaternionToScaledRotation", "q2r": "QuaternionToRotation"}[nm[:3]] + "/" + how), w.where(ip, nm), cells(R), want, P(nm, {"q": 4}))
    # D: rotations of points
    for nm, title in (("uqrot", "UnitQuaternionRotatePoint"), ("qrot", "QuaternionRotatePoint")):
        r3 = out(3)
        r, ip = w.run(nm, array("q", 4), array("p", 3), r3)
        pts = P(nm, {"q": 4, "p": 3})
        if nm == "uqrot":
            for p in pts:
                p.update(putq(o, unit(getq(o, p))))

        def want(p):
            qq = getq(o, p)
            s = sum(x * x for x in qq)
            return [x / s for x in quat_rot(qq, vec(p, "p", 3))]
        check_cells(C, "%s/%s" % (sh, title), w.where(ip, nm), cells(r3), want, pts)
    # E: product, conjugate (also in place), construction, order conversion
    z = out(4)
    r, ip = w.run("qprod", array("q", 4), array("p", 4), z)

    def want(p):
        v = [None] * 4
        for s, x in zip(o, quat_mul(getq(o, p), getq(o, p, "p"))):
            v[s] = x
        return v
    check_cells(C, sh + "/QuaternionProduct", w.where(ip, "qprod"), cells(z), want, P("qprod", {"q": 4, "p": 4}))
    for inplace in (False, True):
        src = array("q", 4)
        z = src if inplace else out(4)
        r, ip = w.run("qconj", src, z)

        def want(p):
            v = [None] * 4
            for i, s in enumerate(o):
                v[s] = p["q%d" % s] * (1 if i == 0 else -1)
            return v
        check_cells(C, sh + "/QuaternionConjugate" + ("/inplace" if inplace else ""), w.where(ip, "qconj"), cells(z), want, P("qconj", {"q": 4}))
    r, ip = w.run("make", *[tm.sym("q%d" % s) for s in range(4)])

    def want(p):
        v = [None] * 4
        for i, s in enumerate(o):
            v[s] = p["q%d" % i]
        return v
    check_cells(C, sh + "/MakeQuaternion", w.where(ip, "make"), [c.v for c in r.reg.cells], want, P("make", {"q": 4}, 2))
    for nm, to in (("to_ceres", (0, 1, 2, 3)), ("to_eigen", (3, 0, 1, 2))):
        src = Arr(Region([Cell(tm.sym("q%d" % i)) for i in range(4)], "q"))
        r, ip = w.run(nm, src)

        def want(p):
            v = [None] * 4
            for f, t in zip(o, to):
                v[t] = p["q%d" % f]
            return v
        check_cells(C, sh + "/ConvertQuaternion/" + nm, w.where(ip, nm), [c.v for c in r.reg.cells], want, P("conv", {"q": 4}, 2))


def rot_points(tag):
    """unit quaternions covering every branch: positive and negative trace, each dominant axis, both signs."""
    r = rng("c04rot" + tag)
    qs = []
    for dom in range(4):
        for k in range(max(3, NPTS // 4)):
            q = [mp(r.num(Fraction(-3, 10), Fraction(3, 10))) for _ in range(4)]
            q[dom] = M(1) if k % 2 else M(-1)
            qs.append(unit(q))
    qs += [[M(1), M(0), M(0), M(0)], [M(0), M(1), M(0), M(0)], [M(0), M(0), M(1), M(0)], [M(0), M(0), M(0), M(1)],
           unit([M("0.001"), M(1), M(1), M("0.5")]), unit([M("0.4"), M(1), M("0.2"), M(1)]), unit([M("0.01"), M("0.2"), M(1), M("1.00001")])]
    return qs


def mat2quat(C, w, o, key, nm, how, n):
    q = out(4)
    r, ip = w.run(nm, array("R", n), q)
    where = w.where(ip, nm)
    got = cells(q)
    if any(not isinstance(g, T) for g in got):
        C.violation(key, where, "a quaternion coefficient is not written")
        return
    for ref in rot_points(nm):
        m = lay(quat_mat(ref), how)
        p = {"R%d" % i: (M(7) if x is None else x) for i, x in enumerate(m)}
        e = tm.Env(p)
        v = [e.ev(got[s]) for s in o]
        d = sum(a * b for a, b in zip(v, ref))
        sg = 1 if d > 0 else -1
        if not all(tm.close(x, sg * y, TOL) for x, y in zip(v, ref)):
            C.violation(key, where, "the matrix of the unit quaternion (w,x,y,z)=(%s) is converted to (%s)" % (", ".join(map(fmt, ref)), ", ".join(map(fmt, v))))
            return
    # the pivot must be a dominant coefficient: with another one the formula cancels catastrophically
    eps = M("3e-6")
    for dom in range(4):
        for small in range(4):
            if small == dom:
                continue
            ref = [M(0)] * 4
            ref[dom] = M(1)
            ref[small] = eps
            ref = unit(ref)
            with mpmath.workprec(53):
                m = [None if x is None else +x for x in lay(quat_mat(ref), how)]
                e = tm.Env({"R%d" % i: (M(7) if x is None else x) for i, x in enumerate(m)})
                v = [e.ev(got[s]) for s in o]
            sg = 1 if v[dom] > 0 else -1
            if not all(abs(x - sg * y) < M("1e-10") for x, y in zip(v, ref)):
                C.violation(key + "/pivot", where, "in double precision the matrix of the unit quaternion (w,x,y,z)=(%s) is converted to (%s): the coefficient divided by is not a dominant one" % (
                    ", ".join(map(fmt, ref)), ", ".join(map(fmt, v))))
                return
    C.passed(key, "matrix of %d unit quaternions in every branch" % len(rot_points(nm)))
    C.count("conversions")


def jet_array(name, n, k, base=0, ipF=None):
    t = "ceres::Jet<double, %d>" % k
    cs = []
    for i in range(n):
        o = Obj(t, {"a": Cell(tm.sym("%s%d" % (name, i))), "v": Cell(None)})
        ip = Interp(ipF)
        o = Obj(t)
        ip.init_fields(o, ipF.recs[t])
        o.f["a"].v = tm.sym("%s%d" % (name, i))
        for j, c in enumerate(o.f["v"].v.cells()):
            c.v = ONE if j == i + base else ZERO
        cs.append(Cell(o))
    return Ptr(Region(cs, name))


def jet_out(n, k, F):
    t = "ceres::Jet<double, %d>" % k
    ip = Interp(F)
    cs = []
    for i in range(n):
        o = Obj(t)
        ip.init_fields(o, F.recs[t])
        cs.append(Cell(o))
    return Ptr(Region(cs, "out"))


def jet_check(C, key, where, outp, nin, num, pts, names):
    """derivatives: compare with high-order central differences of the reference function at 40 digits."""
    h = M("1e-10")
    got = [c.v for c in outp.reg.cells]
    for p in pts:
        e = tm.Env(p)
        base = [p[n] for n in names]
        ref = num(base)
        for i, g in enumerate(got):
            v = g.f["a"].v
            if not isinstance(v, T):
                C.violation(key, where, "output %d is not written" % i)
                return
            if not tm.close(e.ev(v), ref[i], TOL):
                C.violation(key, where, "value of output %d is %s, expected %s at %s" % (i, fmt(e.ev(v)), fmt(ref[i]), p))
                return
            for j in range(nin):
                up, dn = list(base), list(base)
                up[j] += h
                dn[j] -= h
                d = (num(up)[i] - num(dn)[i]) / (2 * h)
                gv = e.ev(g.f["v"].v.cells()[j].v)
                if not (abs(gv - d) < M("1e-8") * (1 + abs(d))):
                    C.violation(key, where, "derivative of output %d by input %d is %s, expected %s at %s" % (i, j, fmt(gv), fmt(d), ", ".join("%s=%s" % (k, fmt(x)) for k, x in sorted(p.items()))))
                    return
    C.passed(key, "derivatives of %d outputs" % len(got))
    C.count("derivatives", len(got) * nin)


def aa_of_quat(q):
    n = mpmath.sqrt(sum(x * x for x in q[1:]))
    sg = 1 if q[0] >= 0 else -1
    if n == 0:
        return [2 * sg * x for x in q[1:]]
    k = 2 * mpmath.atan2(sg * n, sg * q[0]) / n
    return [k * x for x in q[1:]]


def jets(C, F, wj, w, o, sh):
    zero3 = {"a0": M(0), "a1": M(0), "a2": M(0)}
    q = jet_out(4, 4, F)
    r, ip = wj.run("aa2q", jet_array("a", 3, 4, 0, F), q)

    def num(v):
        x = [None] * 4
        for s, y in zip(o, aa_quat(v)):
            x[s] = y
        return x
    jet_check(C, sh + "/AngleAxisToQuaternion/derivative", w.where(ip, "aa2q") if False else wj.where(ip, "aa2q"), q, 3, num, P("jaa2q", {"a": 3}, 3) + [zero3], ["a0", "a1", "a2"])
    a = jet_out(3, 4, F)
    r, ip = wj.run("q2aa", jet_array("q", 4, 4, 0, F), a)

    def num2(v):
        return aa_of_quat([v[s] for s in o])
    pts = []
    for p in P("jq2aa", {"a": 3}, 3):
        for sg in (1, -1):
            pts.append(putq(o, [sg * x for x in aa_quat([x / 2 for x in vec(p, "a", 3)])]))
    names = ["q0", "q1", "q2", "q3"]
    jet_check(C, sh + "/QuaternionToAngleAxis/derivative", wj.where(ip, "q2aa"), a, 4, num2, pts, names)
    # at the two quaternions of the zero rotation the derivative along the vector part is +-2
    for sg in (1, -1):
        p = putq(o, [M(sg), M(0), M(0), M(0)])
        e = tm.Env(p)
        ok = True
        for i, c in enumerate(a.reg.cells):
            for j in range(3):
                d = e.ev(c.v.f["v"].v.cells()[o[1 + j]].v)
                want = M(2 * sg) if i == j else M(0)
                if not tm.close(d, want, TOL):
                    ok = "derivative of output %d by vector coefficient %d at quaternion w=%d is %s, expected %s" % (i, j, sg, fmt(d), fmt(want))
        key = "%s/QuaternionToAngleAxis/derivative at w=%d" % (sh, sg)
        (C.passed(key) if ok is True else C.violation(key, wj.where(ip, "q2aa"), ok))
    for nm, title, unitq in (("uqrot", "UnitQuaternionRotatePoint", True), ("qrot", "QuaternionRotatePoint", False)):
        if nm == "uqrot":
            continue
        r3 = jet_out(3, 4, F)
        qq = jet_array("q", 4, 4, 0, F)
        pp = jet_array("p", 3, 4, 99, F)
        r, ip = wj.run(nm, qq, pp, r3)

        def num3(v):
            x = [v[s] for s in o]
            s2 = sum(y * y for y in x)
            return [y / s2 for y in quat_rot(x, v[4:])]
        jet_check(C, "%s/%s/derivative" % (sh, title), wj.where(ip, nm), r3, 4, num3, P("j" + nm, {"q": 4, "p": 3}, 2), names + ["p0", "p1", "p2"])


def aa_mat(v):
    return quat_mat(aa_quat(v))


def aas(C, F):
    w = W(F, "w::Aa<double>")
    zero = {"a0": M(0), "a1": M(0), "a2": M(0)}
    for nm, how, n in (("aa2r", "col", 9), ("aa2r_row", "row", 9), ("aa2r_str", "str", 12)):
        R = array("R", n, [ZERO] * n) if how == "str" else out(n)
        r, ip = w.run(nm, array("a", 3), R)
        check_cells(C, "AngleAxisToRotationMatrix/" + how, w.where(ip, nm), cells(R), lambda p: [M(0) if x is None else x for x in lay(aa_mat(vec(p, "a", 3)), how)],
                    P(nm, {"a": 3}) + [zero, {"a0": M(0), "a1": M(5), "a2": M(-1)}])
    for inplace in (False, True):
        src = array("p", 3)
        o = src if inplace else out(3)
        r, ip = w.run("aarot", array("a", 3), src, o)
        check_cells(C, "AngleAxisRotatePoint" + ("/inplace" if inplace else ""), w.where(ip, "aarot"), cells(o),
                    lambda p: quat_rot(aa_quat(vec(p, "a", 3)), vec(p, "p", 3)), P("aarot", {"a": 3, "p": 3}) + [dict(zero, p0=M(1), p1=M(-2), p2=M("0.5"))])
    z = out(3)
    r, ip = w.run("cross", array("x", 3), array("y", 3), z)
    check_cells(C, "CrossProduct", w.where(ip, "cross"), cells(z), lambda p: cross(vec(p, "x", 3), vec(p, "y", 3)), P("cross", {"x": 3, "y": 3}))
    r, ip = w.run("dot", array("x", 3), array("y", 3))
    check_cells(C, "DotProduct", w.where(ip, "dot"), [r], lambda p: [sum(a * b for a, b in zip(vec(p, "x", 3), vec(p, "y", 3)))], P("dot", {"x": 3, "y": 3}))
    wj = W(F, "w::Aa<ceres::Jet<double, 3>>")
    R = jet_out(9, 3, F)
    r, ip = wj.run("aa2r", jet_array("a", 3, 3, 0, F), R)
    jet_check(C, "AngleAxisToRotationMatrix/derivative", wj.where(ip, "aa2r"), R, 3, lambda v: lay(aa_mat(v), "col"), P("jaa2r", {"a": 3}, 2) + [zero], ["a0", "a1", "a2"])
    o = jet_out(3, 3, F)
    r, ip = wj.run("aarot", jet_array("a", 3, 3, 0, F), jet_array("p", 3, 3, 99, F), o)
    jet_check(C, "AngleAxisRotatePoint/derivative", wj.where(ip, "aarot"), o, 3, lambda v: quat_rot(aa_quat(v[:3]), v[3:]),
              P("jaarot", {"a": 3, "p": 3}, 2) + [dict(zero, p0=M(1), p1=M(-2), p2=M("0.5"))], ["a0", "a1", "a2", "p0", "p1", "p2"])
    # rotation matrix -> angle axis
    w2 = W(F, "w::R2")
    for nm, how, n in (("r2aa", "col", 9), ("r2aa_row", "row", 9), ("r2aa_str", "str", 12)):
        a = out(3)
        r, ip = w2.run(nm, array("R", n), a)
        pts, ref = [], {}
        for q in rot_points(nm):
            if q[0] == 0:
                continue        # half turns: the axis is defined up to its sign
            d = {"R%d" % i: (M(7) if x is None else x) for i, x in enumerate(lay(quat_mat(q), how))}
            ref[id(d)] = aa_of_quat(q)
            pts.append(d)
        check_cells(C, "RotationMatrixToAngleAxis/" + how, w2.where(ip, nm), cells(a), lambda p: ref[id(p)], pts)
    for nm, how in (("deg2r", "row"), ("deg2r_col", "col")):
        R = out(9)
        r, ip = w2.run(nm, array("e", 3), R)

        def want(p):
            an = [x * mpmath.pi / 180 for x in vec(p, "e", 3)]
            m = [axis_rot(i, mpmath.cos(x), mpmath.sin(x)) for i, x in enumerate(an)]
            return lay(matmul(m[2], matmul(m[1], m[0])), how)
        pts = [{k: v * 60 for k, v in p.items()} for p in P("deg", {"e": 3})]
        check_cells(C, "EulerAnglesToRotationMatrix/" + how, w2.where(ip, nm), cells(R), want, pts)
