"""C28: views of E and F, the implicit Schur complement, its preconditioners and the iterative solver."""
import sys
import mpmath
from alg import *
import coop
import facts
from check import Check
from rotmath import mp
from props.c25 import Blk, ints
from props.c26 import policies
from props.c27 import CASES, FILES, Wrong, targs_of
RULE = ("value numbering of every operation over block structures with symbolic values, for one thread and, under several schedules without unordered accesses, for more == the same expression in the dense matrices E and F; "
        "of the solver with an open conjugate gradients step: the operator, right hand side, starting point, tolerances and preconditioner it is given, and the back substituted result")
MORE = ("implicit_schur_complement.cc", "power_series_expansion_preconditioner.cc", "preconditioner.cc", "schur_jacobi_preconditioner.cc", "iterative_schur_complement_solver.cc", "detect_structure.cc")
M = mp(0).__class__
VIEW_OPS = ["y += E x", "y += F x", "y += E' x", "y += F' x", "block diagonal of E'E", "block diagonal of F'F", "update of the block diagonal of E'E", "update of the block diagonal of F'F"]
IMP_OPS = ["right hand side", "product", "power series operator", "back substitution", "inverse of the E'E blocks", "inverse of the F'F blocks", "left product"]
IDENTITY, JACOBI, SCHUR_JACOBI, SPSE = 0, 1, 2, 3
# every f block needs an equation of its own for the blocks of F'F to have an inverse
WELL = {
    "three points, two cameras": ([2] * 7, [2, 1, 2, 2, 3], 3, {0: [0, 3], 1: [0, 4], 2: [1, 4], 3: [1, 3], 4: [2, 3], 5: [2, 4], 6: [3, 4]}, [(2, -1, -1)]),
    "equal sizes": ([2] * 6, [2, 2, 2, 2], 2, {0: [0, 2], 1: [0, 3], 2: [0, 2, 3], 3: [1, 2], 4: [1, 3], 5: [1, 2]}, [(2, 2, 2), (2, -1, -1)]),
    "rows without point": ([3, 2, 3, 2], [2, 1, 3], 1, {0: [0, 1], 1: [0, 1, 2], 2: [1, 2], 3: [2]}, []),
    "sizes (2,2,3)": ([2] * 5, [2, 2, 3, 3], 2, {0: [0, 2], 1: [0, 2, 3], 2: [0, 3], 3: [1, 3], 4: [1, 2]}, [(2, 2, 3)]),
}


def run():
    sys.setrecursionlimit(200000)
    C = Check("C28", RULE, floor=60)
    F = facts.load([facts.witness("implicit.cc")] + [facts.REPO + "/internal/ceres/" + s for s in tuple(dict.fromkeys(FILES + MORE))])
    W = {}
    for f in F.fns.values():
        if f.q.startswith("w::"):
            W[f.n + (re.sub(r"\s", "", "<" + ",".join(str(x) for x in targs_of(f)) + ">") if f.n == "View" else "")] = f
    r = rng("c28")
    point = {}

    def val(name):
        if name not in point:
            point[name] = mp(r.num(-3, 3))
        return point[name]

    class Look(dict):
        def __missing__(self, k):
            return val(k)

    def env():
        e = tm.Env({}, None)
        e.v = Look()
        return e

    def sym(base, n):
        return array(base, max(1, n), [tm.sym("%s%d" % (base, i)) for i in range(max(1, n))])

    def num(e, v, what):
        if not isinstance(v, T):
            raise Wrong(what + " is unwritten")
        return e.ev(v)

    def vec(base, n):
        return mpmath.matrix([val("%s%d" % (base, i)) for i in range(n)]) if n else mpmath.matrix(0, 1)

    def dense(blk, ne, base):
        """E and F"""
        d = blk.mat(base).dense(Look())
        ec, n = blk.cp[ne], blk.cp[-1]
        m = len(d)
        E = mpmath.matrix(m, ec) if ec else mpmath.matrix(m, 0)
        Fm = mpmath.matrix(m, n - ec) if n > ec else mpmath.matrix(m, 0)
        for i in range(m):
            for j in range(n):
                if j < ec:
                    E[i, j] = d[i][j]
                else:
                    Fm[i, j - ec] = d[i][j]
        return E, Fm

    def blocks(A, at, inv=False):
        """The block diagonal of A, or its inverse."""
        n = at[-1] - at[0]
        out = mpmath.zeros(n, n)
        for lo, hi in zip(at, at[1:]):
            lo, hi = lo - at[0], hi - at[0]
            sub = mpmath.matrix([[A[i, j] for j in range(lo, hi)] for i in range(lo, hi)])
            if inv:
                sub = mpmath.inverse(sub)
            for i in range(lo, hi):
                for j in range(lo, hi):
                    out[i, j] = sub[i - lo, j - lo]
        return out

    def interp(limit=12000000):
        ip = Interp(F, limit)
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(8)
        return ip

    def call(ip, fn, args, make):
        try:
            if make is None:
                ip.call(fn, args)
            else:
                co = coop.Coop(ip, make())
                co.run(lambda: ip.call(fn, args))
                if co.races:
                    raise Wrong(co.races[0])
                C.count("thread switches", co.switches)
        except OutOfRange as ex:
            raise Wrong(ex.msg)
        if any(a is not FALSE for a in ip.aborts):
            raise Wrong("a CHECK fails")

    def same(e, arr, want, what, tol="1e-9"):
        for i, w in enumerate(want):
            g = num(e, arr.reg.cells[i].v, "entry %d of the %s" % (i, what))
            if not tm.close(g, w, M(tol)):
                raise Wrong("entry %d of the %s is %s, not %s" % (i, what, fmt(g), fmt(w)))

    def ob(key, loc, f):
        def go():
            try:
                f()
            except Wrong as ex:
                C.violation(key, loc, str(ex))
                return
            except UninitRead as ex:
                C.violation(key, loc, str(ex))
                return
            C.passed(key)
        guarded(C, key, go)

    # --- views of E and F
    def view(fn, case, op, threads, make=None):
        rs, cs, ne, cells = case[:4]
        blk = Blk(rs, cs, cells, order="e first")
        ec, n, m = blk.cp[ne], blk.cp[-1], blk.rp[-1]
        E, Fm = dense(blk, ne, "v")
        xn = {0: ec, 1: n - ec, 2: m, 3: m}.get(op, blk.nnz)
        yn = {0: m, 1: m, 2: ec, 3: n - ec}.get(op, 0)
        k = ec if op in (4, 6) else n - ec
        y = sym("y", yn) if op < 4 else array("y", max(1, k * k), [UNINIT] * max(1, k * k))
        sizes = array("sizes", 6, [UNINIT] * 6)
        ip = interp()
        call(ip, fn, [ints("s", blk.ints()), const(ne), sym("v", blk.nnz), const(threads), const(op), sym("x", xn), y, sizes], make)
        e = env()
        same(e, sizes, [ne, len(cs) - ne, ec, n - ec, m, n], "sizes")
        if op < 4:
            A = (E, Fm, E.T, Fm.T)[op]
            want = [val("y%d" % i) + sum(A[i, j] * val("x%d" % j) for j in range(xn)) for i in range(yn)]
            same(e, y, want, "product")
        else:
            A = E if op in (4, 6) else Fm
            at = blk.cp[:ne + 1] if op in (4, 6) else blk.cp[ne:]
            if len(at) > 1:
                d = blocks(A.T * A, at)
                same(e, y, [d[i, j] for i in range(k) for j in range(k)], "block diagonal")
        C.count("view operations")

    VC = "ceres::internal::PartitionedMatrixView<"
    tname = lambda t: "<%s>" % ",".join(map(str, t))
    for nm, case in list(CASES.items()):
        for t in [(-1, -1, -1)] + case[4]:
            def go(case=case, t=t):
                for op in range(8):
                    try:
                        view(W["View" + tname(t)], case, op, 1)
                    except Wrong as ex:
                        raise Wrong("%s: %s" % (VIEW_OPS[op], ex))
            ob("view%s: %s" % (tname(t), nm), loc_of(F, VC, "LeftMultiplyAndAccumulateFSingleThreaded"), go)
    n_sched = 16 if THOROUGH else 2
    for nm, t in [("three points that share cameras", (2, 2, 3)), ("rows without e block", (-1, -1, -1)), ("mixed sizes", (-1, -1, -1)), ("a row with only its e block", (2, -1, -1)), ("an f block nothing depends on", (3, 3, 3)), ("only e blocks", (-1, -1, -1)), ("no e rows but one", (-1, -1, -1)), ("one point, several cells in a row", (2, 3, -1)), ("five cameras under one point", (-1, -1, -1)), ("a wide row without e block", (2, -1, -1)), ("unlike cameras, rows of many cells", (-1, -1, -1))]:
        def go(nm=nm, t=t):
            for op in range(8):
                for pn, make in policies(n_sched, nm + str(op)):
                    for threads in (2, 3) if THOROUGH else (2 + op % 2,):
                        try:
                            view(W["View" + tname(t)], CASES[nm], op, threads, make)
                        except Wrong as ex:
                            raise Wrong("%s, %d threads (%s): %s" % (VIEW_OPS[op], threads, pn, ex))
        ob("view%s, several threads: %s" % (tname(t), nm), loc_of(F, VC, "LeftMultiplyAndAccumulateFMultiThreaded"), go)

    # --- the implicit Schur complement
    class Ref:
        def __init__(self, blk, ne, with_d, dbase="D", vbase="v", bbase="b"):
            E, Fm = dense(blk, ne, vbase)
            ec, n = blk.cp[ne], blk.cp[-1]
            D = [val("%s%d" % (dbase, i)) ** 2 if with_d else M(0) for i in range(n)]
            b = vec(bbase, blk.rp[-1])
            self.ec, self.fc = ec, n - ec
            ete = E.T * E + mpmath.diag(D[:ec])
            self.EtEi = blocks(ete, blk.cp[:ne + 1], True)
            self.b, self.E, self.F = b, E, Fm
            if self.fc:
                ftf = Fm.T * Fm + mpmath.diag(D[ec:])
                self.S = ftf - Fm.T * E * self.EtEi * E.T * Fm
                self.rhs = Fm.T * b - Fm.T * E * self.EtEi * E.T * b
                self.at = blk.cp[ne:]
                self.ftf = ftf
                self.FtFi = None

        def ftfi(self):
            if self.FtFi is None:
                self.FtFi = blocks(self.ftf, self.at, True)
            return self.FtFi

        def Z(self):
            return self.ftfi() * self.F.T * self.E * self.EtEi * self.E.T * self.F

        def back(self, z):
            res = self.b - self.F * z if self.fc else self.b
            y = self.EtEi * (self.E.T * res)
            return list(y) + (list(z) if self.fc else [])

        def series(self, x, terms, tol):
            """(sum over k <= K) Z^k (F'F)^-1 x, with the series ending behind the first term below the threshold"""
            t = self.ftfi() * x
            out = t.copy()
            thr = tol * mpmath.norm(t)
            for k in range(1, terms + 1):
                t = self.Z() * t
                out += t
                if mpmath.norm(t) < thr:
                    break
            return out

    def implicit(case, op, threads, with_d, again, pre=JACOBI, spse=0, terms=0, tol=0, make=None):
        rs, cs, ne, cells = case[:4]
        blk = Blk(rs, cs, cells, order="e first")
        m, n, ec = blk.rp[-1], blk.cp[-1], blk.cp[ne]
        fc = n - ec
        R = Ref(blk, ne, with_d)
        xn = fc
        yn = {0: fc, 1: fc, 2: fc, 3: n, 4: ec * ec, 5: fc * fc, 6: fc, 7: fc}[op]
        zeroed = op in (1, 6, 7)
        y = sym("y", yn) if op == 2 else array("y", max(1, yn), [ZERO if zeroed else tm.sym("junk%d" % i) for i in range(max(1, yn))])
        sizes = array("sizes", 2, [UNINIT] * 2)
        ip = interp()
        call(ip, W["Implicit"], [ints("s", blk.ints()), const(ne), sym("v", blk.nnz), sym("w", blk.nnz) if again else NULL, sym("b", m), sym("B", m), sym("D", n) if with_d else NULL, sym("d", n) if again else NULL,
                                 const(threads), const(pre), const(spse), const(terms), tm.const(tol), const(op), sym("x", xn), y, sizes], make)
        e = env()
        same(e, sizes, [fc, fc], "sizes")
        x = vec("x", xn)
        if op == 0:
            want = list(R.rhs)
        elif op in (1, 6):
            want = list(R.S * x)
        elif op == 2:
            z = R.Z() * x
            want = [val("y%d" % i) + z[i] for i in range(fc)]
        elif op == 3:
            want = R.back(x)
        elif op == 4:
            want = list(R.EtEi)
        elif op == 5:
            want = list(R.ftfi())
        else:
            want = list(R.series(x, terms, M(tol.numerator) / tol.denominator if tol else M(0)))
        same(e, y, want, (IMP_OPS + ["product with the preconditioner"])[op], "1e-8")
        C.count("implicit operations")

    IC = "ceres::internal::ImplicitSchurComplement"
    every = dict(WELL)
    for nm, case in every.items():
        for op in range(7):
            def go(case=case, op=op):
                for with_d, again in ((1, 1), (0, 0), (1, 0), (0, 1)):
                    implicit(case, op, 1, with_d, again, SPSE if with_d else JACOBI)
                if op in (2, 5):
                    implicit(case, op, 1, 1, 0, IDENTITY, 1)
            ob("implicit Schur complement, %s: %s" % (IMP_OPS[op], nm), loc_of(F, IC, ("UpdateRhs", "RightMultiplyAndAccumulate", "InversePowerSeriesOperatorRightMultiplyAccumulate", "BackSubstitute", "AddDiagonalAndInvert", "AddDiagonalAndInvert", "LeftMultiplyAndAccumulate")[op]), go)
    for nm in ("a row with only its e block", "an f block nothing depends on", "one point, several cells in a row", "only e blocks"):
        def go(case=CASES[nm]):
            for op in (0, 1, 3, 4) if nm != "only e blocks" else (3, 4):
                implicit(case, op, 1, 1, 1, IDENTITY)
        ob("implicit Schur complement with damping: " + nm, loc_of(F, IC, "Init"), go)
    for nm, case in every.items():
        def go(case=case, nm=nm):
            for op in (0, 1, 2, 3):
                for pn, make in policies(max(1, n_sched // 2), "i" + nm + str(op)):
                    try:
                        implicit(case, op, 2 + op % 2, 1, 0, make=make)
                    except Wrong as ex:
                        raise Wrong("%s (%s): %s" % (IMP_OPS[op], pn, ex))
        ob("implicit Schur complement, several threads: " + nm, loc_of(F, IC, "Init"), go)
    from fractions import Fraction as Q
    for nm, case in every.items():
        def go(case=case):
            for terms, tol in ((1, 0), (2, 0), (3, 0), (4, Q(1, 10)), (4, Q(1, 2)), (3, Q(10)), (0, 0)):
                if terms == 0:
                    continue
                implicit(case, 7, 1, 1, 0, SPSE, 0, terms, tol)
            implicit(case, 7, 1, 0, 1, IDENTITY, 1, 2, 0)
        ob("power series preconditioner: " + nm, loc_of(F, "ceres::internal::PowerSeriesExpansionPreconditioner", "RightMultiplyAndAccumulate"), go)

    # --- the solver
    def solver(case, pre, spse, with_d, again, fails=False):
        rs, cs, ne, cells = case[:4]
        blk = Blk(rs, cs, cells, order="e first")
        m, n, ec = blk.rp[-1], blk.cp[-1], blk.cp[ne]
        fc = n - ec
        ip = interp()
        seen = []

        def lv(x):
            return ip.load(x) if isinstance(x, (Cell, LVal)) else x
        ip.hooks["ceres::internal::ScopedExecutionTimer::ScopedExecutionTimer"] = lambda ip, recv, a, n: Obj("ceres::internal::ScopedExecutionTimer")
        ip.hooks["ceres::internal::EventLogger::EventLogger"] = lambda ip, recv, a, n: Obj("ceres::internal::EventLogger")
        ip.hooks["ceres::internal::EventLogger::AddEvent"] = lambda ip, recv, a, n: None
        ip.hooks["ceres::internal::SchurEliminatorBase::Create"] = lambda ip, recv, a, n: make_obj(ip, "ceres::internal::SchurEliminator<-1, -1, -1>", [a[0]])
        ip.hooks["ceres::internal::PartitionedMatrixViewBase::Create"] = lambda ip, recv, a, n: make_obj(ip, "ceres::internal::PartitionedMatrixView<-1, -1, -1>", [a[0], a[1]])

        def cg(ip, recv, a, node):
            o, op, pr = lv(a[0]), lv(a[1]), lv(a[3])
            rhs, sol = lv(a[2]), lv(a[5])
            s = {"rhs": [c.v for c in rhs.cells()], "start": [c.v for c in sol.cells()]}
            s["options"] = {k: o.f[k].v for k in ("min_num_iterations", "max_num_iterations", "residual_reset_period", "q_tolerance", "r_tolerance")}
            for nm, ob_ in (("Sx", op), ("Px", pr)):
                x, y = ip.newmat(fc, 1, fill=ZERO), ip.newmat(fc, 1, fill=ZERO)
                for i in range(fc):
                    x.grid[i][0].v = tm.sym("x%d" % i)
                ip.call(method(F, ob_.cls, "RightMultiplyAndAccumulate", 2), [Cell(x), Cell(y)], ob_)
                s[nm] = [c.v for c in y.cells()]
            for i in range(fc):
                sol.cells()[i].v = tm.sym("z%d" % i)
            seen.append(s)
            rt = strip_cvref(ip.ty(node))
            o = ip.default(rt)
            ip.default_member_inits(o, rt)
            o.f["termination_type"].v = const(fails)
            return o
        ip.hooks["ceres::internal::ConjugateGradientsSolver"] = cg
        junk = lambda b: array(b, n, [tm.sym("%s%d" % (b, i)) for i in range(n)])
        x = junk("junk")
        terms, tol = 2, Q(1, 10)
        call(ip, W["Solve"], [const(pre), const(spse), const(terms), tm.const(tol), ints("s", blk.ints()), const(ne), sym("v", blk.nnz), sym("w", blk.nnz) if again else NULL, sym("b", m), sym("B", m),
                              sym("D", n) if with_d else NULL, x, junk("x2junk")], None)
        e = env()
        R = Ref(blk, ne, with_d)
        if fc == 0:
            if seen:
                raise Wrong("conjugate gradients runs although nothing is left to solve")
            same(e, x, R.back(None), "solution", "1e-8")
            return
        if len(seen) != 1 + again:
            raise Wrong("conjugate gradients runs %d times in %d calls" % (len(seen), 1 + again))
        s = seen[-1]
        lst = lambda k: array(k, fc, s[k])
        same(e, lst("rhs"), list(R.rhs), "right hand side given to conjugate gradients", "1e-8")
        xs = vec("x", fc)
        same(e, lst("Sx"), list(R.S * xs), "product with the operator given to conjugate gradients", "1e-8")
        if pre == IDENTITY:
            P = list(xs)
        elif pre == JACOBI:
            P = list(R.ftfi() * xs)
        elif pre == SCHUR_JACOBI:
            P = list(blocks(R.S, R.at, True) * xs)
        else:
            P = list(R.series(xs, terms, M(0)))
        same(e, lst("Px"), P, "product with the preconditioner", "1e-8")
        start = list(R.series(R.rhs, terms, M(1) / 10)) if spse else [M(0)] * fc
        same(e, lst("start"), start, "starting point of conjugate gradients", "1e-8")
        for k, w in (("min_num_iterations", 3), ("max_num_iterations", 17), ("residual_reset_period", 7), ("q_tolerance", M("0.25")), ("r_tolerance", M("0.125"))):
            if not tm.close(num(e, s["options"][k], k), w):
                raise Wrong("%s of conjugate gradients is %s, not %s" % (k, fmt(e.ev(s["options"][k])), fmt(w)))
        if fails < 2:
            same(e, x, R.back(vec("z", fc)), "solution", "1e-8")
        C.count("solves")

    SC = "ceres::internal::IterativeSchurComplementSolver"
    PN = {IDENTITY: "identity", JACOBI: "Jacobi", SCHUR_JACOBI: "Schur Jacobi", SPSE: "power series"}
    for nm, case in every.items():
        for pre in (IDENTITY, JACOBI, SCHUR_JACOBI, SPSE):
            def go(case=case, pre=pre):
                for spse, with_d, again in ((0, 1, 1), (1, 0, 0), (0, 0, 1), (1, 1, 1)):
                    solver(case, pre, spse, with_d, again)
                solver(case, pre, 0, 1, 0, 1)
            ob("solver, %s: %s" % (PN[pre], nm), loc_of(F, SC, "SolveImpl"), go)
    ob("solver: only e blocks", loc_of(F, SC, "SolveImpl"), lambda: [solver(CASES["only e blocks"], pre, 0, d, again) for pre, d, again in ((JACOBI, 1, 1), (SPSE, 1, 0), (SCHUR_JACOBI, 0, 0))])
    return C
