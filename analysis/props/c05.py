"""C05: all 24 Euler angle conventions, both directions."""
from alg import *
import facts
from check import Check
from rotmath import *
from props.c04 import W, check_cells, lay, out, vec, TOL
import itertools, mpmath

RULE = ("value numbering of EulerAnglesToRotation and RotationMatrixToEulerAngles for the 24 named systems: the matrix term must be the product of the "
        "three axis rotations the system's name spells; the extracted angles must reproduce the matrix, lie in the canonical ranges, and also do so at gimbal lock")
SEQ = ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX", "XYX", "XZX", "YXY", "YZY", "ZXZ", "ZYZ"]


def ref(name, fr, cs):
    ax = ["XYZ".index(c) for c in name]
    m = [axis_rot(a, c, s) for a, (c, s) in zip(ax, cs)]
    return matmul(m[2], matmul(m[1], m[0])) if fr == "Extrinsic" else matmul(m[0], matmul(m[1], m[2]))


def trig(e):
    return [(mpmath.cos(x), mpmath.sin(x)) for x in e]


def run():
    C = Check("C05", RULE, floor=80)
    F = facts.load([facts.witness("rotation.cc")])
    for fr in ("Extrinsic", "Intrinsic"):
        for name in SEQ:
            sysn = fr + name
            r = F.recs.get("w::" + sysn)
            bases = [b for b in ((r.h.get("bases") or []) if r else [])]
            b = None
            for x in bases:
                t = x if isinstance(x, str) else (r.types[x["t"]] if isinstance(x, dict) else r.types[x])
                b = t
            if not b:
                raise facts.AnalysisBroken("Euler system %s has no witness" % sysn)
            w = W(F, b if b.startswith("w::") else "w::" + b)
            guarded(C, sysn, lambda: one(C, w, fr, name, sysn))
    C.assume = ["real arithmetic", "identity of terms decided by evaluation of the derived terms at 40 digits"]
    return C


def one(C, w, fr, name, sysn):
    proper = name[0] == name[2]
    rr = rng("c05" + sysn)
    angs = [[mp(rr.num(-6, 6)) for _ in range(3)] for _ in range(NPTS)]
    for nm, how in (("e2r", "row"), ("e2r_col", "col")):
        R = out(9)
        r, ip = w.run(nm, array("e", 3), R)
        check_cells(C, "%s/to matrix/%s" % (sysn, how), w.where(ip, nm), cells(R),
                    lambda p: lay(ref(name, fr, trig(vec(p, "e", 3))), how), [{"e%d" % i: x for i, x in enumerate(a)} for a in angs])
    for nm, how in (("r2e", "row"), ("r2e_col", "col")):
        e = out(3)
        r, ip = w.run(nm, array("R", 9), e)
        where = w.where(ip, nm)
        got = cells(e)
        key = "%s/from matrix/%s" % (sysn, how)
        if any(not isinstance(g, T) for g in got):
            C.violation(key, where, "an angle is not written")
            continue
        pi = mpmath.pi
        pts = [(trig(a), "angles (%s)" % ", ".join(map(fmt, a))) for a in angs]
        one_, zero = M(1), M(0)
        for a in angs[:4]:
            t = trig(a)
            for mid in (((one_, zero), (-one_, zero)) if proper else ((zero, one_), (zero, -one_))):
                pts.append(([t[0], mid, t[2]], "gimbal lock with outer angles %s, %s" % (fmt(a[0]), fmt(a[2]))))
        # quarter turns: signs of zero must not matter
        q = [(one_, zero), (zero, one_), (-one_, zero), (zero, -one_)]
        pts += [(list(c), "quarter turns") for c in itertools.product(q, repeat=3)]
        bad = None
        for cs, what in pts:
            m = ref(name, fr, cs)
            # double precision: the range limits are compared with the double nearest to pi
            with mpmath.workprec(53):
                env = tm.Env({"R%d" % i: +x for i, x in enumerate(lay(m, how))})
                v = [env.ev(g) for g in got]
            back = ref(name, fr, trig(v))
            d = max(abs(back[i][j] - m[i][j]) for i in range(3) for j in range(3))
            eps = M("1e-12")
            lo, hi = (-eps, pi + eps) if proper else (-pi / 2 - eps, pi / 2 + eps)
            if not d < M("1e-11"):
                bad = "the extracted angles (%s) do not reproduce the matrix (error %s), input: %s" % (", ".join(map(fmt, v)), fmt(d), what)
            elif not (lo <= v[1] <= hi):
                bad = "middle angle %s outside its canonical range, input: %s" % (fmt(v[1]), what)
            elif not all(-pi - eps <= x <= pi + eps for x in (v[0], v[2])):
                bad = "outer angle outside [-pi, pi]: %s, input: %s" % (", ".join(map(fmt, v)), what)
            if bad:
                break
        if bad:
            C.violation(key, where, bad)
        else:
            C.passed(key, "%d rotations incl. gimbal lock and quarter turns" % len(pts))
        C.count("systems x layouts")
