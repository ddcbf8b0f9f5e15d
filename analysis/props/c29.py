"""C29: conjugate gradients, the CGNR solver and the preconditioners of the normal equations."""
import sys
import itertools
import mpmath
from alg import *
import coop
import facts
from check import Check
from rotmath import mp
from props.c25 import Blk, ints
from props.c26 import policies
from props.c27 import FILES, Wrong
RULE = ("value numbering of ConjugateGradientsSolver over symbolic operators, right hand sides and tolerances, its iterations unrolled: solution, iteration count and termination type == the preconditioned conjugate gradient recurrence and its documented tests; "
        "of the block Jacobi and subset preconditioners over block structures, for one and several threads == the inverse of the blocks or of Q'Q + D'D; of CgnrSolver with an open conjugate gradients step: operator, right hand side, start, options and preconditioner")
MORE = ("block_jacobi_preconditioner.cc", "cgnr_solver.cc", "inner_product_computer.cc", "subset_preconditioner.cc", "preconditioner.cc", "compressed_row_sparse_matrix.cc")
M = mp(0).__class__
SUCCESS, NO_CONVERGENCE, FAILURE = 0, 1, 2
IDENTITY, JACOBI, SUBSET = 0, 1, 6
STRUCT = {
    "blocks of mixed sizes": ([2, 1, 3, 2], [2, 1, 3], {0: [0, 1], 1: [1], 2: [0, 2], 3: [0, 1, 2]}),
    "one block": ([3, 2], [2], {0: [0], 1: [0]}),
    "scalar blocks": ([1, 1, 1, 2], [1, 1, 1], {0: [0, 2], 1: [1], 2: [0, 1, 2], 3: [1, 2]}),
    "one scalar": ([1, 1], [1], {0: [0], 1: [0]}),
    "a block nothing but the damping touches": ([2, 2], [2, 2, 1], {0: [0], 1: [0, 1]}),
}


def cg_reference(A, P, b, x, mn, mx, reset, rt, qt):
    """Preconditioned conjugate gradients with the documented termination tests."""
    n = len(b)
    mul = lambda K, v: [sum(K[i][j] * v[j] for j in range(n)) for i in range(n)]
    dot = lambda u, v: sum(p * q for p, q in zip(u, v))
    norm = lambda u: mpmath.sqrt(dot(u, u))
    bad = lambda v: v == 0 or mpmath.isinf(v)
    nb = norm(b)
    if nb == 0:
        return [M(0)] * n, SUCCESS, 0
    r = [p - q for p, q in zip(b, mul(A, x))]
    if mn == 0 and norm(r) <= rt * nb:
        return x, SUCCESS, 0
    Q = lambda: -dot(x, [p + q for p, q in zip(b, r)])
    q0, rho, p = Q(), None, None
    k = 0
    while True:
        k += 1
        z = mul(P, r)
        last, rho = rho, dot(r, z)
        if bad(rho):
            return x, FAILURE, k
        if p is None:
            p = z
        else:
            if bad(rho / last):
                return x, FAILURE, k
            p = [u + rho / last * v for u, v in zip(z, p)]
        q = mul(A, p)
        pq = dot(p, q)
        if pq <= 0 or mpmath.isinf(pq):
            return x, NO_CONVERGENCE, k
        alpha = rho / pq
        x = [u + alpha * v for u, v in zip(x, p)]
        if k % reset == 0:
            r = [u - v for u, v in zip(b, mul(A, x))]
        else:
            r = [u - alpha * v for u, v in zip(r, q)]
        q1 = Q()
        if k >= mn and k * (q1 - q0) / q1 < qt:
            return x, SUCCESS, k
        q0 = q1
        if k >= mn and norm(r) <= rt * nb:
            return x, SUCCESS, k
        if k >= mx:
            return x, NO_CONVERGENCE, k


def run():
    sys.setrecursionlimit(200000)
    C = Check("C29", RULE, floor=40)
    F = facts.load([facts.witness("cg.cc")] + [facts.REPO + "/internal/ceres/" + s for s in dict.fromkeys(tuple(FILES) + MORE)])
    W = {f.n: f for f in F.fns.values() if f.q.startswith("w::")}
    r = rng("c29")
    point = {}

    def val(name):
        if name not in point:
            point[name] = mp(r.num(-3, 3))
        return point[name]

    class Look(dict):
        def __missing__(self, k):
            return val(k)

    def env(d=None):
        e = tm.Env({}, None)
        e.v = Look() if d is None else d
        return e

    sym = lambda base, n: array(base, max(1, n), [tm.sym("%s%d" % (base, i)) for i in range(max(1, n))])

    def num(e, v, what):
        if not isinstance(v, T):
            raise Wrong(what + " is unwritten")
        return e.ev(v)

    def interp(limit=12000000):
        ip = Interp(F, limit)
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(8)
        return ip

    def call(ip, fn, args, make=None):
        try:
            if make is None:
                ip.call(fn, args)
            else:
                co = coop.Coop(ip, make())
                co.run(lambda: ip.call(fn, args))
                if co.races:
                    raise Wrong(co.races[0])
                C.count("thread switches", co.switches)
        except OutOfRange as ex:
            raise Wrong(ex.msg)
        if any(a is not FALSE for a in ip.aborts):
            raise Wrong("a CHECK fails")

    def same(e, arr, want, what, tol="1e-9"):
        for i, w in enumerate(want):
            g = num(e, arr.reg.cells[i].v, "entry %d of the %s" % (i, what))
            if not (tm.close(g, w, M(tol)) or (mpmath.isinf(w) and g == w) or (mpmath.isnan(w) and mpmath.isnan(g))):
                raise Wrong("entry %d of the %s is %s, not %s" % (i, what, fmt(g), fmt(w)))

    def ob(key, loc, f):
        def go():
            try:
                f()
            except Wrong as ex:
                C.violation(key, loc, str(ex))
                return
            except UninitRead as ex:
                C.violation(key, loc, str(ex))
                return
            C.passed(key)
        guarded(C, key, go)

    # --- the iteration
    def spd(n, kind):
        B = [[mp(r.num(-2, 2)) for _ in range(n)] for _ in range(n)]
        S = [[sum(B[k][i] * B[k][j] for k in range(n)) + (i == j) for j in range(n)] for i in range(n)]
        if kind == "indefinite":
            S[n - 1][n - 1] -= 2 + sum(abs(v) for row in S for v in row)
        if kind == "singular":
            S = [[mp(1) if i == j == 0 else mp(0) for j in range(n)] for i in range(n)]
        if kind == "infinite":
            S[0][0] = mpmath.inf
        if kind == "negative":
            S = [[-v for v in row] for row in S]
        return S

    TOL = [mp(0), mpmath.mpf(1) / 10**30, mpmath.mpf(1) / 50, mpmath.mpf(1) / 3, mp(2)]
    CGF = loc_of(F, "ceres::internal::ConjugateGradientsSolver", "ConjugateGradientsSolver")

    def cg(n, mn, mx, reset, npts):
        ip = interp()
        x, out = sym("x", n), array("out", 2, [UNINIT] * 2)
        call(ip, W["Cg"], [const(n), const(mn), const(mx), const(reset), tm.sym("rt"), tm.sym("qt"), sym("A", n * n), sym("P", n * n), sym("b", n), x, out])
        seen = set()
        for k in range(npts):
            A = spd(n, ("definite", "definite", "definite", "indefinite", "definite", "negative", "infinite", "definite")[k % 8])
            P = spd(n, ("definite", "singular", "definite", "definite", "negative", "definite", "definite", "infinite", "indefinite")[k % 9])
            if k % 5 == 0:
                P = [[mp(i == j) for j in range(n)] for i in range(n)]
            b = [mp(r.num(-3, 3)) for _ in range(n)]
            x0 = [mp(r.num(-3, 3)) if k % 3 else mp(0) for _ in range(n)]
            if k == 4:
                b = [mp(0)] * n
            if k in (7, 20):        # start at the solution
                x0 = [mp(j + 1) for j in range(n)]
                A = [[mp((i + 1) * (i == j)) for j in range(n)] for i in range(n)]
                b = [sum(A[i][j] * x0[j] for j in range(n)) for i in range(n)]
            if k == 11:             # A residual the preconditioner maps to zero
                P = [[mp(0)] * n for _ in range(n)]
            if k in (13, 14) and n > 1:   # after one step the preconditioner does not see the residual any more: beta = 0
                x0 = [mp(0)] * n
                A = [[mp(2 + (i == 1)) if i == j else mp(i + j == 1) for j in range(n)] for i in range(n)]
                b = [mp(2)] + [mp(0)] * (n - 1)
                P = [[mp(i == j == 0) for j in range(n)] for i in range(n)]
            if k in (17, 29):       # a direction without curvature
                A = [[mp(0)] * n for _ in range(n)]
            rt, qt = TOL[r.r.randrange(5)] if hasattr(r, "r") else TOL[(k * 7) % 5], TOL[(k * 3 + k // 5) % 5]
            if k % 4 == 1:
                qt = mp(0)
            if k % 4 == 2:
                rt = mp(0)
            d = {"rt": rt, "qt": qt}
            for i in range(n):
                d["b%d" % i], d["x%d" % i] = b[i], x0[i]
                for j in range(n):
                    d["A%d" % (n * i + j)], d["P%d" % (n * i + j)] = A[i][j], P[i][j]
            w, t, it = cg_reference(A, P, b, x0, mn, mx, reset, rt, qt)
            e = env(d)
            got_t, got_it = num(e, out.reg.cells[0].v, "termination type"), num(e, out.reg.cells[1].v, "number of iterations")
            where = "dimension %d, iterations from %d to %d, residual reset every %d" % (n, mn, mx, reset)
            if got_t != t:
                raise Wrong("%s: the termination type is %s, not %d" % (where, fmt(got_t), t))
            if got_it != it:
                raise Wrong("%s: %s iterations are counted, not %d" % (where, fmt(got_it), it))
            try:
                same(e, x, w, "solution", "1e-15")
            except Wrong as ex:
                raise Wrong("%s: %s" % (where, ex))
            seen.add((t, it))
            C.count("points of the iteration")
        return seen

    deep = [(4, 2, 4, 2), (3, 0, 5, 3), (2, 3, 4, 1)] if THOROUGH else []
    for n, mn, mx, reset in [(1, 0, 1, 10), (1, 1, 2, 1), (2, 0, 0, 10), (2, 0, 1, 10), (2, 0, 2, 10), (2, 1, 2, 1), (2, 2, 2, 10), (2, 0, 3, 2), (3, 0, 2, 1), (3, 1, 3, 10), (3, 1, 3, 2), (3, 2, 3, 2), (3, 3, 3, 3), (3, 2, 4, 3)] + deep:
        ob("iteration: dimension %d, %d to %d iterations, residual reset every %d" % (n, mn, mx, reset), CGF, lambda a=(n, mn, mx, reset): cg(*a, 90 if THOROUGH else 45))

    # --- vector operations
    OPS = ["norm", "dot product", "a x + b y", "z = a x + b z", "copy", "zero"]

    def vop(op, n, threads, make):
        ip = interp()
        if threads > 1:             # blocks of one element, so that the work is really divided
            ip.consts["ceres::internal::kMinBlockSizeParallelVectorOps"] = 1
        z = sym("z", n)
        call(ip, W["VectorOp"], [const(n), const(threads), const(op), tm.sym("a"), tm.sym("b"), sym("x", n), sym("y", n), z], make)
        e = env()
        X, Y, Z = ([val("%s%d" % (c, i)) for i in range(n)] for c in "xyz")
        a, b = val("a"), val("b")
        want = [[mpmath.sqrt(sum(v * v for v in X))], [sum(p * q for p, q in zip(X, Y))], [a * p + b * q for p, q in zip(X, Y)], [a * p + b * q for p, q in zip(X, Z)], X, [M(0)] * n][op]
        same(e, z, want, OPS[op])
    VF = ["Norm", "Dot", "Axpby", "Axpby", "Copy", "SetZero"]
    for op in range(6):
        def go(op=op):
            for n in (1, 2, 5):
                vop(op, n, 1, None)
            for n, threads in ((1, 2), (3, 2), (5, 2), (5, 3)):
                for pn, make in policies(12 if THOROUGH else 2, "v%d" % op):
                    try:
                        vop(op, n, threads, make)
                    except Wrong as ex:
                        raise Wrong("%d elements, %d threads (%s): %s" % (n, threads, pn, ex))
        ob("vector operation: " + OPS[op], loc_of(F, "ceres::internal::" + VF[op], VF[op]), go)

    # --- preconditioners
    def diag_inv(A, at):
        n = at[-1]
        out = mpmath.zeros(n, n)
        for lo, hi in zip(at, at[1:]):
            sub = mpmath.inverse(mpmath.matrix([[A[i, j] for j in range(lo, hi)] for i in range(lo, hi)]))
            for i in range(lo, hi):
                for j in range(lo, hi):
                    out[i, j] = sub[i - lo, j - lo]
        return out

    def dense(blk, base="v"):
        d = blk.mat(base).dense(Look())
        return mpmath.matrix(d)

    def normal(blk, with_d, start=0, dbase="D"):
        A = dense(blk)
        lo = blk.rp[start]
        m, n = A.rows, A.cols
        N = mpmath.zeros(n, n)
        for i in range(n):
            for j in range(n):
                N[i, j] = sum((A[k, i] * A[k, j] for k in range(lo, m)), M(0)) + (val("%s%d" % (dbase, i)) ** 2 if with_d and i == j else 0)
        return N

    KIND = ["block Jacobi", "block Jacobi of compressed rows", "subset"]
    CLS = ["BlockSparseJacobiPreconditioner", "BlockCRSJacobiPreconditioner", "SubsetPreconditioner"]

    def precondition(kind, case, with_d, again, threads=1, start=0, tri=1, fails=0, make=None):
        rs, cs, cl = case
        blk = Blk(rs, cs, cl)
        n, m = blk.cp[-1], blk.rp[-1]
        y, sizes = array("y", n, [ZERO] * n), array("sizes", 6, [UNINIT] * 6)
        ip = interp()
        call(ip, W["Precondition"], [const(kind), ints("s", blk.ints()), sym("v", blk.nnz), sym("w", blk.nnz) if again else NULL, sym("D", n) if with_d else NULL, sym("d", n) if again and (with_d or kind != 2) else NULL,
                                     const(threads), const(start), const(tri), const(fails), sym("x", n), y, sizes], make)
        e = env()
        same(e, sizes, [n, n] + ([0 if fails else 1, m, blk.nnz, len(rs)] if kind != 1 else []), "sizes (dimensions, success, dimensions of the Jacobian afterwards)")
        C.count("preconditioners")
        if fails:
            return
        N = normal(blk, with_d, start)
        P = mpmath.inverse(N) if kind == 2 else diag_inv(N, blk.cp)
        same(e, y, list(P * mpmath.matrix([val("x%d" % i) for i in range(n)])), "product with the preconditioner")

    n_sched = 12 if THOROUGH else 2
    for nm, case in STRUCT.items():
        thin = "damping" in nm
        for kind in (0, 1):
            def go(kind=kind, case=case):
                for with_d, again in ((1, 0), (1, 1)) if thin else ((0, 0), (1, 0), (0, 1), (1, 1)):
                    precondition(kind, case, with_d, again)
                for threads in (2, 3):
                    for pn, make in policies(n_sched, nm + str(kind)):
                        try:
                            precondition(kind, case, 1, threads % 2, threads, make=make)
                        except Wrong as ex:
                            raise Wrong("%d threads (%s): %s" % (threads, pn, ex))
            ob("%s preconditioner: %s" % (KIND[kind], nm), loc_of(F, "ceres::internal::" + CLS[kind], "UpdateImpl"), go)

        def go(case=case):
            for tri in (1, 2):
                for start in range(len(case[0]) if not thin else 1):
                    for with_d, again in ((1, 0), (1, 1)) if thin or start else ((0, 0), (1, 0), (0, 1), (1, 1)):
                        try:
                            precondition(2, case, with_d, again, 1, start, tri)
                        except Wrong as ex:
                            raise Wrong("%s triangle, from row block %d, %s damping, update %d: %s" % (["lower", "upper"][tri - 1], start, "with" if with_d else "without", 1 + again, ex))
                precondition(2, case, 1, 1, 1, 0, tri, FAILURE)
        ob("subset preconditioner: " + nm, loc_of(F, "ceres::internal::SubsetPreconditioner", "UpdateImpl"), go)

    # --- the solver
    def solver(pre, case, with_d, again, start=0, ends=SUCCESS, threads=1):
        rs, cs, cl = case
        blk = Blk(rs, cs, cl)
        n, m = blk.cp[-1], blk.rp[-1]
        ip = interp()
        seen = []
        lv = lambda v: ip.load(v) if isinstance(v, (Cell, LVal)) else v
        ip.hooks["ceres::internal::ScopedExecutionTimer::ScopedExecutionTimer"] = lambda ip, recv, a, n: Obj("ceres::internal::ScopedExecutionTimer")
        ip.hooks["ceres::internal::EventLogger::EventLogger"] = lambda ip, recv, a, n: Obj("ceres::internal::EventLogger")
        ip.hooks["ceres::internal::EventLogger::AddEvent"] = lambda ip, recv, a, n: None

        def open_cg(ip, recv, a, node):
            o, op, rhs, pr, sol = lv(a[0]), lv(a[1]), lv(a[2]), lv(a[3]), lv(a[5])
            s = {"rhs": [c.v for c in rhs.cells()], "start": [c.v for c in sol.cells()]}
            s["options"] = {k: o.f[k].v for k in ("min_num_iterations", "max_num_iterations", "residual_reset_period", "q_tolerance", "r_tolerance", "num_threads")}
            for nm, ob_ in (("A", op), ("A twice", op), ("P", pr)):
                x, y = ip.newmat(n, 1, fill=ZERO), ip.newmat(n, 1, fill=ZERO)
                for i in range(n):
                    x.grid[i][0].v = tm.sym("x%d" % i)
                    y.grid[i][0].v = tm.sym("y%d" % i) if nm == "A twice" else ZERO
                ip.call(method(F, ob_.cls, "RightMultiplyAndAccumulate", 2), [Cell(x), Cell(y)], ob_)
                s[nm] = [c.v for c in y.cells()]
            ps = lv(a[4])
            sc = [lv(ps.reg.cells[i]) for i in range(4)] if isinstance(ps, Ptr) else []
            s["scratch"] = sc
            for i in range(n):
                sol.cells()[i].v = tm.sym("z%d" % i)
            seen.append(s)
            rt = strip_cvref(ip.ty(node))
            q = ip.default(rt)
            ip.default_member_inits(q, rt)
            q.f["termination_type"].v = const(ends)
            q.f["num_iterations"].v = const(11)
            return q
        ip.hooks["ceres::internal::ConjugateGradientsSolver"] = open_cg
        x, out = array("junk", n, [tm.sym("junk%d" % i) for i in range(n)]), array("out", 2, [UNINIT] * 2)
        call(ip, W["Cgnr"], [const(pre), ints("s", blk.ints()), sym("v", blk.nnz), sym("w", blk.nnz) if again else NULL, sym("b", m), sym("B", m), sym("D", n) if with_d else NULL, const(threads), const(start), x, sym("X", n), out])
        e = env()
        if len(seen) != 1 + again:
            raise Wrong("conjugate gradients runs %d times in %d calls" % (len(seen), 1 + again))
        s = seen[-1]
        lst = lambda k: array(k, n, s[k])
        A, N = dense(blk), normal(blk, with_d)
        xs = mpmath.matrix([val("x%d" % i) for i in range(n)])
        same(e, lst("rhs"), list(A.T * mpmath.matrix([val("b%d" % i) for i in range(m)])), "right hand side given to conjugate gradients")
        same(e, lst("start"), [M(0)] * n, "starting point of conjugate gradients")
        same(e, lst("A"), list(N * xs), "product with the operator given to conjugate gradients")
        same(e, lst("A twice"), list(N * xs + mpmath.matrix([val("y%d" % i) for i in range(n)])), "second product with the operator given to conjugate gradients")
        P = mpmath.eye(n) if pre == IDENTITY else diag_inv(N, blk.cp) if pre == JACOBI else mpmath.inverse(normal(blk, with_d, start))
        same(e, lst("P"), list(P * xs), "product with the preconditioner")
        for k, w in (("min_num_iterations", 3), ("max_num_iterations", 17), ("residual_reset_period", 7), ("q_tolerance", M("0.25")), ("r_tolerance", M("0.125")), ("num_threads", threads)):
            if not tm.close(num(e, s["options"][k], k), w):
                raise Wrong("%s of conjugate gradients is %s, not %s" % (k, fmt(e.ev(s["options"][k])), fmt(w)))
        same(e, x, [val("z%d" % i) for i in range(n)], "solution")
        same(e, out, [ends, 11], "summary (termination type, iterations)")
        C.count("solves")

    for nm, case in STRUCT.items():
        thin = "damping" in nm
        for pre, pn in ((IDENTITY, "identity"), (JACOBI, "Jacobi"), (SUBSET, "subset")):
            def go(case=case, pre=pre):
                for with_d, again, ends in ((1, 0, SUCCESS), (1, 1, NO_CONVERGENCE)) if thin else ((0, 0, SUCCESS), (1, 1, FAILURE), (1, 0, NO_CONVERGENCE), (0, 1, SUCCESS)):
                    solver(pre, case, with_d, again, 1 if with_d and pre == SUBSET else 0, ends)
            ob("solver, %s: %s" % (pn, nm), loc_of(F, "ceres::internal::CgnrSolver", "SolveImpl"), go)
    return C
