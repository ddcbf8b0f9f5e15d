"""C30: the direct linear solvers and the factorizations they use."""
import sys
import mpmath
from alg import *
import facts
from check import Check
from rotmath import mp
from props.c25 import Blk, ints
from props.c27 import FILES, Wrong
RULE = ("value numbering of the solvers LinearSolver::Create makes, over symbolic Jacobians, right hand sides and damping, twice in a row: solution == that of (A'A + D'D) x = A'b, the Jacobian as it was, one iteration counted, the outcome of each factorization step passed on; "
        "with factorizations that scale their solutions and overwrite their input, k refinement steps == the k steps of iterative refinement with the matrix; the LAPACK variants with models of the routines they call")
MORE = ("dense_cholesky.cc", "dense_qr.cc", "dense_normal_cholesky_solver.cc", "dense_qr_solver.cc", "dense_sparse_matrix.cc", "iterative_refiner.cc", "linear_solver.cc", "inner_product_computer.cc", "sparse_cholesky.cc", "eigensparse.cc",
        "sparse_normal_cholesky_solver.cc", "dynamic_sparse_normal_cholesky_solver.cc", "cgnr_solver.cc", "schur_complement_solver.cc", "iterative_schur_complement_solver.cc", "types.cc")
M = mp(0).__class__
DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR = range(7)
SUCCESS, FAILURE, FATAL_ERROR = 0, 2, 3
EIGEN_SPARSE = 1
NATURAL, AMD = 0, 1
STRUCT = {
    "blocks of mixed sizes": ([2, 1, 3, 2], [2, 1, 2], {0: [0, 1], 1: [1], 2: [0, 2], 3: [0, 1, 2]}),
    "one block": ([3, 2], [2], {0: [0], 1: [0]}),
    "scalar blocks": ([1, 1, 1, 2], [1, 1, 1], {0: [0, 2], 1: [1], 2: [0, 1, 2], 3: [1, 2]}),
    "unconnected blocks": ([2, 2, 1], [2, 1, 1], {0: [0], 1: [2], 2: [1]}),
    "a block nothing but the damping touches": ([2, 2], [2, 2, 1], {0: [0], 1: [0, 1]}),
}


def run():
    sys.setrecursionlimit(200000)
    C = Check("C30", RULE, floor=30)
    F = facts.load([facts.witness("direct.cc")] + [facts.REPO + "/internal/ceres/" + s for s in dict.fromkeys(tuple(FILES) + MORE)])
    W = {f.n: f for f in F.fns.values() if f.q.startswith("w::")}
    r = rng("c30")
    point = {"t": M("0.75")}
    if F.enums.get("ceres::internal::LinearSolverTerminationType") is None:
        C.undecided("enumerations", None, "no termination types")

    def val(name):
        if name not in point:
            point[name] = mp(r.num(-3, 3))
        return point[name]

    class Look(dict):
        def __missing__(self, k):
            return val(k)

    def env():
        e = tm.Env({}, None)
        e.v = Look()
        return e
    sym = lambda base, n: array(base, max(1, n), [tm.sym("%s%d" % (base, i)) for i in range(max(1, n))])

    def num(e, v, what):
        if not isinstance(v, T):
            raise Wrong(what + " is unwritten")
        return e.ev(v)

    def interp(scaled=False):
        ip = Interp(F, 12000000)
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(8)
        ip.hooks["ceres::internal::ScopedExecutionTimer::ScopedExecutionTimer"] = lambda ip, recv, a, n: Obj("ceres::internal::ScopedExecutionTimer")
        ip.hooks["ceres::internal::EventLogger::EventLogger"] = lambda ip, recv, a, n: Obj("ceres::internal::EventLogger")
        ip.hooks["ceres::internal::EventLogger::AddEvent"] = lambda ip, recv, a, n: None
        if scaled:
            ip.inexact = tm.sym("t")
        return ip

    def outcomes(ip, fail):
        """info() of every factorization: bad at the given (call, phase); remembers what was asked."""
        seen = []
        ip.dechook = {}

        def info(ip, d, a):
            if d.failed:
                return const(1)
            seen.append((d.phase, d.type))
            bad = (len([1 for p, _ in seen if p == d.phase]), d.phase) == fail
            d.failed = bad and d.phase != "solved"
            return const(1 if bad else 0)
        ip.dechook["info"] = info
        return seen

    def call(ip, fn, args):
        try:
            v = ip.call(fn, args)
        except OutOfRange as ex:
            raise Wrong(ex.msg)
        if any(a is not FALSE for a in ip.aborts):
            raise Wrong("a CHECK fails")
        return ip.load(v) if isinstance(v, (Cell, LVal)) else v

    def same(e, arr, want, what, tol="1e-9"):
        for i, w in enumerate(want):
            g = num(e, arr.reg.cells[i].v, "entry %d of the %s" % (i, what))
            if not tm.close(g, w, M(tol)):
                raise Wrong("entry %d of the %s is %s, not %s" % (i, what, fmt(g), fmt(w)))

    def ob(key, loc, f):
        def go():
            try:
                f()
            except (Wrong, UninitRead) as ex:
                C.violation(key, loc, str(ex))
                return
            C.passed(key)
        guarded(C, key, go)

    def opts(type_, dense_lib=0, ordering=NATURAL, dynamic=0, mixed=0, refine=0, threads=1, explicit=0):
        return ints("o", [type_, dense_lib, EIGEN_SPARSE, ordering, dynamic, mixed, refine, threads, explicit])

    def reference(A, b, D, refine, scaled):
        """Solution of the damped normal equations; times 1 - (1 - t)^(k + 1) when every factorization scales by t and is refined k times."""
        n = A.cols
        N = A.T * A
        for i in range(n):
            N[i, i] += D[i] ** 2 if D is not None else 0
        x = mpmath.lu_solve(N, A.T * mpmath.matrix(b))
        f = 1 - (1 - point["t"]) ** (refine + 1) if scaled else 1
        return [f * v for v in x]

    def checked(ip, what, x, out, want, ended=SUCCESS):
        e = env()
        same(e, out, [ended, 1], what + "summary (termination type, iterations)")
        if ended != SUCCESS:
            if num(e, out.reg.cells[2].v, "the message") == 0:
                raise Wrong(what + "a failure without a message")
            return
        same(e, x, want, what + "solution")
        C.count("solves")

    vals = lambda base, n: [val("%s%d" % (base, i)) for i in range(n)]
    matrix = lambda base, m, n: mpmath.matrix([[val("%s%d" % (base, i * n + j)) for j in range(n)] for i in range(m)])

    def precise(seen, mixed):
        for ph, t in seen:
            if ("float" in t) != bool(mixed):
                raise Wrong("a factorization in %s precision is used %s mixed precision solves" % ("single" if "float" in t else "double", "with" if mixed else "without"))

    # --- dense solvers
    def dense(type_, shape, first, with_d, first_d, mixed=0, refine=0, fail=None):
        m, n = shape
        scaled = type_ == DENSE_NORMAL_CHOLESKY
        ip = interp(scaled)
        seen = outcomes(ip, fail)
        x, x2, out, out2, after = array("x", n, [tm.sym("junk%d" % i) for i in range(n)]), array("x2", first[1] if first else 1, [UNINIT] * (first[1] if first else 1)), array("out", 3, [UNINIT] * 3), array("out2", 3, [UNINIT] * 3), array("after", m * n, [UNINIT] * (m * n))
        m2, n2 = first or (1, 1)
        call(ip, W["Dense"], [opts(type_, mixed=mixed, refine=refine), const(m2), const(n2), sym("p", m2 * n2) if first else NULL, sym("q", m2), sym("E", n2) if first_d else NULL, x2, out2,
                              const(m), const(n), sym("a", m * n), sym("b", m), sym("D", n) if with_d else NULL, x, out, after])
        if scaled:
            precise(seen, mixed)
        failed_first = fail is not None and fail[0] == 1 and first is not None
        if first:
            checked(ip, "first ", x2, out2, reference(matrix("p", m2, n2), vals("q", m2), vals("E", n2) if first_d else None, refine, scaled), FAILURE if failed_first else SUCCESS)
        checked(ip, "", x, out, reference(matrix("a", m, n), vals("b", m), vals("D", n) if with_d else None, refine, scaled), FAILURE if fail is not None and not failed_first else SUCCESS)
        e = env()
        same(e, after, vals("a", m * n), "Jacobian afterwards")

    SHAPES = [((1, 1), None), ((3, 2), None), ((4, 3), (3, 2)), ((3, 2), (5, 3)), ((2, 2), (3, 2)), ((5, 2), (3, 2)), ((4, 4), None)]
    for shape, first in SHAPES:
        what = "%d x %d" % shape + (" after %d x %d" % first if first else "")
        for type_, nm, cls in ((DENSE_NORMAL_CHOLESKY, "dense normal equations", "DenseNormalCholeskySolver"), (DENSE_QR, "dense QR", "DenseQRSolver")):
            def go(type_=type_, shape=shape, first=first):
                for with_d, first_d in ((0, 0), (1, 0), (0, 1), (1, 1)) if first else ((0, 0), (1, 0)):
                    dense(type_, shape, first, with_d, first_d)
            ob("%s: %s" % (nm, what), loc_of(F, "ceres::internal::" + cls, "SolveImpl"), go)

    DR = loc_of(F, "ceres::internal::RefinedDenseCholesky", "Solve")
    for refine in (1, 2, 3):
        def go(refine=refine):
            for mixed in (0, 1):
                dense(DENSE_NORMAL_CHOLESKY, (4, 3), None, 1, 0, mixed, refine)
                dense(DENSE_NORMAL_CHOLESKY, (3, 2), (5, 3), 0, 1, mixed, refine)
                dense(DENSE_NORMAL_CHOLESKY, (5, 3), (3, 2), 1, 1, mixed, refine)
        ob("dense normal equations, %d refinement steps" % refine, DR, go)
    ob("dense normal equations in mixed precision", loc_of(F, "ceres::internal::FloatEigenDenseCholesky", "Solve"), lambda: [dense(DENSE_NORMAL_CHOLESKY, s, f, 1, 0, 1, 0) for s, f in SHAPES])

    def failures():
        for mixed in (0, 1):
            for refine in (0, 2):
                dense(DENSE_NORMAL_CHOLESKY, (3, 2), None, 1, 0, mixed, refine, (1, "factorized"))
                dense(DENSE_NORMAL_CHOLESKY, (3, 2), (5, 3), 1, 0, mixed, refine, (1, "factorized"))
    ob("dense normal equations: a factorization that fails", loc_of(F, "ceres::internal::EigenDenseCholesky", "Factorize"), failures)

    # --- sparse solvers
    def sparse(dynamic, case, with_d, again, ordering=NATURAL, mixed=0, refine=0, threads=1, fail=None, first=None, blocks=1):
        rs, cs, cl = case
        blk = Blk(rs, cs, cl)
        m, n = blk.rp[-1], blk.cp[-1]
        b2 = Blk(*first) if first else blk
        m2, n2 = b2.rp[-1], b2.cp[-1]
        ip = interp(True)
        seen = outcomes(ip, fail)
        x, x2, out, out2, after = array("x", n, [tm.sym("junk%d" % i) for i in range(n)]), array("x2", n2, [UNINIT] * n2), array("out", 3, [UNINIT] * 3), array("out2", 3, [UNINIT] * 3), array("after", 3 + blk.nnz, [UNINIT] * (3 + blk.nnz))
        o = opts(SPARSE_NORMAL_CHOLESKY, ordering=ordering, dynamic=dynamic, mixed=mixed, refine=refine, threads=threads)
        if dynamic:
            call(ip, W["Dynamic"], [o, const(blocks), ints("s2", b2.ints()) if again else NULL, sym("w", b2.nnz), sym("q", m2), sym("E", n2) if with_d else NULL, x2, out2,
                                    ints("s", blk.ints()), sym("v", blk.nnz), sym("b", m), sym("D", n) if with_d else NULL, x, out, after])
        else:
            call(ip, W["Sparse"], [o, ints("s", blk.ints()), sym("w", blk.nnz) if again else NULL, sym("q", m2), sym("E", n2) if with_d else NULL, x2, out2, sym("v", blk.nnz), sym("b", m), sym("D", n) if with_d else NULL, x, out, after])
            precise(seen, mixed)
        e = env()
        bad = {"analyzed": FATAL_ERROR}.get(fail[1], FAILURE) if fail else None
        A2, A = mpmath.matrix(b2.mat("w").dense(Look())), mpmath.matrix(blk.mat("v").dense(Look()))
        if again:
            first_bad = fail is not None and fail[0] == 1
            checked(ip, "first ", x2, out2, reference(A2, vals("q", m2), vals("E", n2) if with_d else None, refine, True), bad if first_bad else SUCCESS)
        checked(ip, "", x, out, reference(A, vals("b", m), vals("D", n) if with_d else None, refine, True), bad if fail is not None and fail[0] == 1 + again else SUCCESS)
        if dynamic:
            same(e, after, [m, blk.nnz, n], "dimensions of the Jacobian afterwards")
            got = [num(e, after.reg.cells[3 + i].v, "the Jacobian") for i in range(blk.nnz)]
            want = [v for row in blk.mat("v").dense(Look()) for v in row if v != 0]
            if len(got) != len(want) or any(not tm.close(g, w) for g, w in zip(got, want)):
                raise Wrong("the Jacobian is changed")
        else:
            same(e, after, [m, blk.nnz, len(rs)] + vals("v", blk.nnz), "Jacobian afterwards (rows, nonzeros, row blocks, values)")

    SNC = loc_of(F, "ceres::internal::SparseNormalCholeskySolver", "SolveImpl")
    DYN = loc_of(F, "ceres::internal::DynamicSparseNormalCholeskySolver", "SolveImpl")
    ETC = loc_of(F, "ceres::internal::EigenSparseCholesky", "Create")
    for nm, case in STRUCT.items():
        thin = "damping" in nm
        ds = (1,) if thin else (0, 1)

        def go(case=case, ds=ds):
            for with_d in ds:
                for again in (0, 1):
                    for ordering in (NATURAL, AMD):
                        sparse(0, case, with_d, again, ordering)
        ob("sparse normal equations: " + nm, SNC, go)

        def go(case=case, ds=ds):
            for with_d in ds:
                for blocks in (0, 1):
                    sparse(1, case, with_d, 0, blocks=blocks)
                    sparse(1, case, with_d, 1, blocks=blocks)
                    if not thin or with_d:
                        sparse(1, case, with_d, 1, first=STRUCT["scalar blocks"], blocks=blocks)
        ob("sparse normal equations of changing structure: " + nm, DYN, go)

        def go(case=case, ds=ds):
            for with_d in ds:
                for mixed in (0, 1):
                    for refine in (1, 2, 3):
                        sparse(0, case, with_d, with_d, AMD if refine == 2 else NATURAL, mixed, refine)
                sparse(0, case, with_d, 1, NATURAL, 1, 0)
        ob("sparse normal equations, refined and in mixed precision: " + nm, loc_of(F, "ceres::internal::RefinedSparseCholesky", "Solve"), go)

    def failures():
        case = STRUCT["blocks of mixed sizes"]
        for mixed in (0, 1):
            for refine in (0, 1):
                for ph in ("analyzed", "factorized", "solved"):
                    sparse(0, case, 1, 0, NATURAL, mixed, refine, fail=(1, ph))
                for ph in ("factorized",) + (("solved",) if not refine else ()):
                    sparse(0, case, 1, 1, NATURAL, mixed, refine, fail=(2, ph))
                sparse(0, case, 1, 1, AMD, mixed, refine, fail=(1, "factorized"))
                sparse(0, case, 1, 1, AMD, mixed, refine, fail=(1, "analyzed"))
    ob("sparse normal equations: a factorization that fails", ETC, failures)

    def failures():
        for nm in ("one block", "scalar blocks"):
            for ph in ("analyzed", "factorized", "solved"):
                sparse(1, STRUCT[nm], 1, 0, fail=(1, ph))
                sparse(1, STRUCT[nm], 1, 1, fail=(2, ph))
                sparse(1, STRUCT[nm], 0, 1, fail=(1, ph))
    ob("sparse normal equations of changing structure: a factorization that fails", DYN, failures)

    # --- the LAPACK variants, with models of the routines
    G = facts.load([facts.witness("lapack.cc"), facts.REPO + "/internal/ceres/iterative_refiner.cc", facts.REPO + "/internal/ceres/types.cc"])
    V = {f.n: f for f in G.fns.values() if f.q.startswith("w::")}

    def lapack(ip, potrf_info=(), trtrs_info=()):
        lv = lambda v: ip.load(v) if isinstance(v, (Cell, LVal)) else v
        at = lambda p, i: ip.deref(p, const(i))
        state = {"junk": 0, "potrf": 0, "trtrs": 0, "precise": []}

        def scalar(v):
            x = lv(v)
            x = ip.load(at(x, 0)) if isinstance(x, (Ptr, Arr)) else x
            if not isinstance(x, T) or not tm.isc(x):
                raise Unsupported("argument of a LAPACK routine")
            return int(tm.cval(x))

        def flag(v, want, what):
            if chr(scalar(v)) != want:
                raise Wrong("%s is %r, not %r" % (what, chr(scalar(v)), want))

        def junk(cell):
            state["junk"] += 1
            cell.v = tm.sym("factor%d" % state["junk"])

        def place(p):
            p = lv(p)
            p = Ptr(p.reg) if isinstance(p, Arr) else p
            return p.reg, int(tm.cval(p.off))

        def put(v, p, i):
            ip.store(at(lv(p), i), v)

        def potrf(ip, recv, a, nd, kind):
            flag(a[0], "L", "the triangle factorized")
            n, lda = scalar(a[1]), scalar(a[3])
            if lda < max(1, n):
                raise Wrong("leading dimension %d of %d rows" % (lda, n))
            A = [[None] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    c = at(lv(a[2]), i + j * lda)
                    A[i][j] = A[j][i] = ip.load(c)
                    junk(c if isinstance(c, Cell) else c.alts[0][1])
            state["potrf"] += 1
            state["chol"] = (place(a[2]), n, A, kind)
            state["precise"].append(("potrf", kind))
            ip.store(at(lv(a[4]), 0), const(1 if state["potrf"] in potrf_info else 0))

        def potrs(ip, recv, a, nd, kind):
            flag(a[0], "L", "the triangle solved with")
            n, nrhs, lda, ldb = scalar(a[1]), scalar(a[2]), scalar(a[4]), scalar(a[6])
            where, m, A, k = state.get("chol", (None, 0, None, None))
            if where != place(a[3]) or m != n or k != kind:
                raise Wrong("a Cholesky solution with something that is not the factorization")
            if nrhs != 1 or lda < n or ldb < n:
                raise Wrong("wrong dimensions of a Cholesky solution")
            b = ip.matfrom([[tm.mul(tm.sym("t"), ip.load(at(lv(a[5]), i)))] for i in range(n)])
            x = ip.matop("*", ip.inverse(ip.matfrom(A)), b)
            for i in range(n):
                put(x.grid[i][0].v, a[5], i)
            ip.store(at(lv(a[7]), 0), ZERO)
        for k, c in (("double", "d"), ("float", "s")):
            ip.hooks[c + "potrf_"] = lambda ip, recv, a, nd, k=k: potrf(ip, recv, a, nd, k)
            ip.hooks[c + "potrs_"] = lambda ip, recv, a, nd, k=k: potrs(ip, recv, a, nd, k)

        def geqrf(ip, recv, a, nd):
            m, n, lda, lwork = scalar(a[0]), scalar(a[1]), scalar(a[3]), scalar(a[6])
            if lda < m:
                raise Wrong("leading dimension %d of %d rows" % (lda, m))
            if lwork == -1:
                put(const(2 * n), a[5], 0)
            else:
                if lwork < n:
                    raise Wrong("a work space of %d for %d columns" % (lwork, n))
                put(ZERO, a[5], lwork - 1)
                A = [[None] * n for _ in range(m)]
                for i in range(m):
                    for j in range(n):
                        c = at(lv(a[2]), i + j * lda)
                        A[i][j] = ip.load(c)
                        junk(c if isinstance(c, Cell) else c.alts[0][1])
                for j in range(min(m, n)):
                    put(tm.sym("tau%d" % j), a[4], j)
                state["qr"] = (place(a[2]), place(a[4]), m, n, A)
            ip.store(at(lv(a[7]), 0), ZERO)

        def ormqr(ip, recv, a, nd):
            flag(a[0], "L", "the side of Q")
            flag(a[1], "T", "the transposition of Q")
            m, nrhs, k, lda, ldb, lwork = [scalar(a[i]) for i in (2, 3, 4, 6, 9, 11)]
            pa, pt, M_, N_, A = state.get("qr", (None, None, 0, 0, None))
            if pa != place(a[5]) or pt != place(a[7]) or (m, k) != (M_, N_) or nrhs != 1 or lda < m or ldb < m or lwork < 1:
                raise Wrong("Q' b with something that is not the factorization")
            state["q"] = (place(a[8]), [ip.load(at(lv(a[8]), i)) for i in range(m)])
            for i in range(m):
                c = at(lv(a[8]), i)
                junk(c if isinstance(c, Cell) else c.alts[0][1])
            ip.store(at(lv(a[12]), 0), ZERO)

        def trtrs(ip, recv, a, nd):
            for i, w in ((0, "U"), (1, "N"), (2, "N")):
                flag(a[i], w, "argument %d of the triangular solution" % (i + 1))
            n, nrhs, lda, ldb = [scalar(a[i]) for i in (3, 4, 6, 8)]
            pa, pt, M_, N_, A = state.get("qr", (None, None, 0, 0, None))
            pb, b = state.get("q", (None, None))
            if pa != place(a[5]) or pb != place(a[7]) or n != N_ or nrhs != 1 or lda < M_ or ldb < n:
                raise Wrong("a triangular solution with something that is not R or Q' b")
            At = ip.matfrom([[A[i][j] for i in range(M_)] for j in range(N_)])
            x = ip.matop("*", ip.inverse(ip.matop("*", At, ip.matfrom(A))), ip.matop("*", At, ip.matfrom([[v] for v in b])))
            state["trtrs"] += 1
            bad = state["trtrs"] in trtrs_info
            if not bad:
                for i in range(n):
                    put(x.grid[i][0].v, a[7], i)
            ip.store(at(lv(a[9]), 0), const(2 if bad else 0))
        ip.hooks["dgeqrf_"], ip.hooks["dormqr_"], ip.hooks["dtrtrs_"] = geqrf, ormqr, trtrs
        return state

    def lapack_cholesky(n, n2, mixed, refine, fail=()):
        ip = Interp(G, 4000000)
        st = lapack(ip, fail)
        tri = lambda base, n: array(base, n * n, [tm.sym("%s%d" % (base, j * n + i)) if i >= j else tm.sym("other%d" % (j * n + i)) for j in range(n) for i in range(n)])      # column-major lower half
        x, x2, out, out2 = array("x", n, [UNINIT] * n), array("x2", max(1, n2), [UNINIT] * max(1, n2)), array("out", 2, [UNINIT] * 2), array("out2", 2, [UNINIT] * 2)
        call(ip, V["LapackCholesky"], [const(mixed), const(refine), const(n2), tri("u", n2) if n2 else NULL, sym("q", n2), x2, out2, const(n), tri("a", n), sym("b", n), x, out])
        for what, k in st["precise"]:
            if (k == "float") != bool(mixed):
                raise Wrong("a factorization in %s precision is used %s mixed precision solves" % (k, "with" if mixed else "without"))
        e = env()
        f = 1 - (1 - point["t"]) ** (refine + 1)
        for base, rhs, k, xs, o, call_ in (("u", "q", n2, x2, out2, 1), ("a", "b", n, x, out, 2 if n2 else 1)):
            if not k:
                continue
            N = mpmath.matrix([[val("%s%d" % (base, min(i, j) * k + max(i, j))) for j in range(k)] for i in range(k)])
            ended = FAILURE if call_ in fail else SUCCESS
            if num(e, o.reg.cells[0].v, "termination type") != ended:
                raise Wrong("the termination type is %s, not %d" % (fmt(e.ev(o.reg.cells[0].v)), ended))
            if ended == SUCCESS:
                same(e, xs, [f * v for v in mpmath.lu_solve(N, mpmath.matrix(vals(rhs, k)))], "solution")
        C.count("solves")

    def lapack_qr(shape, first, fail=()):
        ip = Interp(G, 4000000)
        lapack(ip, (), fail)
        (m, n), (m2, n2) = shape, first or (1, 1)
        x, x2, out, out2 = array("x", n, [UNINIT] * n), array("x2", n2, [UNINIT] * n2), array("out", 2, [UNINIT] * 2), array("out2", 2, [UNINIT] * 2)
        cols = lambda base, m, n: array(base, m * n, [tm.sym("%s%d" % (base, i * n + j)) for j in range(n) for i in range(m)])
        call(ip, V["LapackQR"], [const(m2), const(n2), cols("p", m2, n2) if first else NULL, sym("q", m2), x2, out2, const(m), const(n), cols("a", m, n), sym("b", m), x, out])
        e = env()
        for base, rhs, r_, c_, xs, o, call_ in (("p", "q", m2, n2, x2, out2, 1), ("a", "b", m, n, x, out, 2 if first else 1)):
            if base == "p" and not first:
                continue
            ended = FAILURE if call_ in fail else SUCCESS
            if num(e, o.reg.cells[0].v, "termination type") != ended:
                raise Wrong("the termination type is %s, not %d" % (fmt(e.ev(o.reg.cells[0].v)), ended))
            if ended == SUCCESS:
                same(e, xs, reference(matrix(base, r_, c_), vals(rhs, r_), None, 0, False), "solution")
        C.count("solves")

    for mixed in (0, 1):
        cls = ("Float" if mixed else "") + "LAPACKDenseCholesky"

        def go(mixed=mixed):
            for n, n2 in ((1, 0), (3, 0), (2, 3), (3, 2)):
                for refine in (0, 1, 2):
                    lapack_cholesky(n, n2, mixed, refine)
                    lapack_cholesky(n, n2, mixed, refine, (1,))
                    if n2:
                        lapack_cholesky(n, n2, mixed, refine, (2,))
        ob("Cholesky of LAPACK" + (" in mixed precision" if mixed else ""), loc_of(G, "ceres::internal::" + cls, "Solve"), go)

    def go():
        for shape, first in (((3, 2), None), ((2, 2), (5, 3)), ((5, 3), (2, 1)), ((4, 3), (6, 2)), ((6, 2), (4, 3))):
            lapack_qr(shape, first)
            lapack_qr(shape, first, (1,))
            if first:
                lapack_qr(shape, first, (2,))
    ob("QR of LAPACK", loc_of(G, "ceres::internal::LAPACKDenseQR", "Solve"), go)

    # --- which solver
    def kinds():
        for what, o, want in (("CGNR", opts(CGNR), 1), ("SPARSE_SCHUR", opts(SPARSE_SCHUR), 2), ("DENSE_SCHUR", opts(DENSE_SCHUR), 3), ("ITERATIVE_SCHUR", opts(ITERATIVE_SCHUR), 4), ("ITERATIVE_SCHUR with an explicit Schur complement", opts(ITERATIVE_SCHUR, explicit=1), 2),
                              ("SPARSE_NORMAL_CHOLESKY", opts(SPARSE_NORMAL_CHOLESKY), 5), ("SPARSE_NORMAL_CHOLESKY of dynamic sparsity", opts(SPARSE_NORMAL_CHOLESKY, dynamic=1), 6), ("DENSE_QR", opts(DENSE_QR), 7), ("DENSE_NORMAL_CHOLESKY", opts(DENSE_NORMAL_CHOLESKY), 8)):
            g = num(env(), call(interp(), W["Kind"], [o]), "kind")
            if g != want:
                raise Wrong("%s is given %s" % (what, ["another solver", "the CGNR solver", "the sparse Schur complement solver", "the dense Schur complement solver", "the iterative Schur complement solver", "the sparse normal equations", "the dynamic sparse normal equations", "dense QR", "the dense normal equations"][int(g)]))
    ob("solver of each type", loc_of(F, "ceres::internal::LinearSolver", "Create"), kinds)

    def groups():
        for t, want in ((DENSE_NORMAL_CHOLESKY, DENSE_NORMAL_CHOLESKY), (DENSE_QR, DENSE_QR), (SPARSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY), (DENSE_SCHUR, DENSE_QR), (SPARSE_SCHUR, SPARSE_NORMAL_CHOLESKY), (ITERATIVE_SCHUR, CGNR), (CGNR, CGNR)):
            g = num(env(), call(interp(), W["WithoutGroups"], [const(t)]), "type")
            if g != want:
                raise Wrong("type %d becomes %s, not %d, when nothing can be eliminated" % (t, fmt(g), want))
    ob("type without variables to eliminate", loc_of(F, "ceres::internal::LinearSolver", "LinearSolverForZeroEBlocks"), groups)
    return C
