"""C08: the robust-loss correction turns residuals and Jacobian into a least squares problem with the robust gradient."""
from alg import *
import facts
from check import Check
from rotmath import mp
import mpmath, os
M = mpmath.mpf
RULE = ("value numbering of Corrector's constructor, CorrectResiduals and CorrectJacobian: J'r after correction == rho' J'r before, |r|^2 scaling and J'J after correction == "
        "rho' J'J + 2 max(rho'',0) J'r r'J, on every branch of the gates and for every shape")


def run():
    C = Check("C08", RULE, floor=30)
    F = facts.load([os.path.join(facts.REPO, "internal/ceres/corrector.cc")])
    cls = "ceres::internal::Corrector"
    cres, cjac = method(F, cls, "CorrectResiduals"), method(F, cls, "CorrectJacobian")
    r = rng("c08")
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3):
            def go(n=n, m=m):
                ip = Interp(F)
                rho = array("rho", 3)
                c = make_obj(ip, cls, [tm.sym("s"), rho])
                res, jac = array("r", n), array("j", n * m)
                # the Jacobian is corrected first: it uses the uncorrected residuals
                Interp(F).call(cjac, [const(n), const(m), res, jac], c)
                untouched = cells(res) == [tm.sym("r%d" % i) for i in range(n)]
                key = "%dx%d" % (n, m)
                C.passed(key + " CorrectJacobian leaves the residuals") if untouched else C.violation(key + " CorrectJacobian leaves the residuals", cjac.loc, "the residuals are modified")
                Interp(F).call(cres, [const(n), res], c)
                J, R = cells(jac), cells(res)
                bad = {}
                for k in range(NPTS * 2):
                    rv = [mp(r.num(-2, 2)) for _ in range(n)]
                    if k == 0:
                        rv = [M(0)] * n
                    jv = [mp(r.num(-2, 2)) for _ in range(n * m)]
                    s = sum(x * x for x in rv)
                    for r1, r2 in ((r.num(Fraction(1, 10), 2), r.num(Fraction(1, 10), 2)), (r.num(Fraction(1, 10), 2), r.num(-2, Fraction(-1, 10))), (r.num(Fraction(1, 10), 2), 0), (0, 0), (0, -1),
                                   (Fraction(1, 2), Fraction(1, 10 ** 9)), (Fraction(1, 1000), 3)):
                        p = {"s": s, "rho0": M(1), "rho1": mp(Fraction(r1)), "rho2": mp(Fraction(r2))}
                        p.update({"r%d" % i: v for i, v in enumerate(rv)})
                        p.update({"j%d" % i: v for i, v in enumerate(jv)})
                        e = tm.Env(p)
                        jc, rc = [e.ev(t) for t in J], [e.ev(t) for t in R]
                        g0 = [sum(jv[i * m + a] * rv[i] for i in range(n)) for a in range(m)]
                        g1 = [sum(jc[i * m + a] * rc[i] for i in range(n)) for a in range(m)]
                        txt = "rho'=%s rho''=%s residuals=(%s)" % (fmt(p["rho1"]), fmt(p["rho2"]), ", ".join(map(fmt, rv)))
                        for a in range(m):
                            if not tm.close(g1[a], p["rho1"] * g0[a], M("1e-20")):
                                bad.setdefault("gradient", "J'r is %s after the correction, rho' J'r is %s, %s" % (fmt(g1[a]), fmt(p["rho1"] * g0[a]), txt))
                            for b in range(m):
                                h1 = sum(jc[i * m + a] * jc[i * m + b] for i in range(n))
                                h0 = p["rho1"] * sum(jv[i * m + a] * jv[i * m + b] for i in range(n)) + 2 * max(p["rho2"], 0) * g0[a] * g0[b]
                                if not tm.close(h1, h0, M("1e-18")):
                                    bad.setdefault("Hessian", "J'J is %s after the correction, expected %s, %s" % (fmt(h1), fmt(h0), txt))
                        if s != 0:
                            k_ = rc[0] / rv[0]
                            for i in range(n):
                                if not tm.close(rc[i], k_ * rv[i], M("1e-18")) or k_ < 0 or (p["rho2"] <= 0 and not tm.close(k_ * k_, p["rho1"], M("1e-18"))):
                                    bad.setdefault("residuals", "residuals (%s) are corrected to (%s), %s" % (", ".join(map(fmt, rv)), ", ".join(map(fmt, rc)), txt))
                for q in ("gradient", "Hessian", "residuals"):
                    C.violation(key + " " + q, (cres if q == "residuals" else cjac).loc, bad[q]) if q in bad else C.passed(key + " " + q)
            guarded(C, "%dx%d" % (n, m), go)
    C.assume = ["real arithmetic", "rho' > 0 whenever rho'' > 0 (documented precondition, checked by the code)"]
    return C
