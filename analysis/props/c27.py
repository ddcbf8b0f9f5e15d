"""C27: Schur elimination and the block random access matrices it writes into."""
import sys
import mpmath
from alg import *
import coop
import facts
from check import Check
from rotmath import mp
from props.c19 import pinv_fns, pinv
from props.c25 import Blk, ints
from props.c26 import policies
RULE = ("value numbering of Eliminate and BackSubstitute over block structures with symbolic values, by every kind of reduced matrix, == the Schur complement of the dense matrix; several threads under many schedules, with no unordered accesses; "
        "cells of the block random access matrices disjoint, inside the storage and consistent with their products, inverses and zeroing; structure detection against its definition; dispatch by syntax: static sizes equal the detected ones")
FILES = ("block_sparse_matrix.cc", "compressed_row_sparse_matrix.cc", "triplet_sparse_matrix.cc", "sparse_matrix.cc", "linear_operator.cc", "block_structure.cc", "context_impl.cc", "thread_pool.cc", "parallel_vector_ops.cc", "parallel_invoke.cc",
         "block_random_access_matrix.cc", "block_random_access_dense_matrix.cc", "block_random_access_sparse_matrix.cc", "block_random_access_diagonal_matrix.cc", "schur_eliminator.cc", "schur_templates.cc", "partitioned_matrix_view.cc", "schur_complement_solver.cc", "detect_structure.cc", "thread_token_provider.cc")
M = mp(0).__class__


class Wrong(Exception):
    pass


#      name: (row sizes, col sizes, number of e blocks, cells, static sizes it fits)
CASES = {
    "two points": ([2, 2, 2], [2, 2, 2, 2], 2, {0: [0, 2], 1: [0, 3], 2: [1, 2]}, [(2, 2, 2)]),
    "one point, several cells in a row": ([2, 2], [3, 1, 2, 2], 1, {0: [0, 1, 3], 1: [0, 2, 3]}, [(2, 3, -1), (2, -1, -1)]),
    "rows without e block": ([2, 2, 1, 3], [2, 3, 2], 1, {0: [0, 1], 1: [0, 2], 2: [2], 3: [1, 2]}, [(2, -1, -1)]),
    "a row with only its e block": ([2, 2, 2], [2, 2, 3], 1, {0: [0, 2], 1: [0], 2: [0, 1, 2]}, [(2, -1, -1)]),
    "an f block nothing depends on": ([3, 3], [3, 3, 3, 3], 1, {0: [0, 1], 1: [0, 3]}, [(3, 3, 3)]),
    "mixed sizes": ([1, 2, 3, 2], [1, 2, 2, 1], 2, {0: [0, 2], 1: [0, 3], 2: [1, 2, 3], 3: [1, 3]}, []),
    "three points that share cameras": ([2] * 5, [2, 2, 2, 3, 3], 3, {0: [0, 3], 1: [0, 4], 2: [1, 4], 3: [2, 3], 4: [2, 4]}, [(2, 2, 3)]),
    "the same camera twice under one point": ([2, 2, 2], [2, 3, 3], 1, {0: [0, 1], 1: [0, 1], 2: [0, 2]}, [(2, 2, 3)]),
    "only e blocks": ([2, 2], [2, 2], 2, {0: [0], 1: [1]}, [(2, 2, 2)]),
    "a chunk of rows of three sizes": ([1, 3, 2, 2], [2, 1, 2], 1, {0: [0, 2], 1: [0, 1], 2: [0, 1, 2], 3: [1]}, []),
    "five cameras under one point": ([2, 2, 2], [2, 1, 2, 1, 1, 1], 1, {0: [0, 3, 5], 1: [0, 1, 2], 2: [0, 4]}, [(2, -1, -1)]),
    "a wide row without e block": ([2, 2, 1], [2, 2, 1, 2, 1], 1, {0: [0, 3], 1: [0, 1], 2: [1, 2, 3, 4]}, [(2, -1, -1)]),
    "unlike cameras, rows of many cells": ([2, 1, 2], [1, 2, 1, 3, 1], 1, {0: [0, 1, 2, 3, 4], 1: [0, 2, 3, 4], 2: [1, 2, 4]}, []),
    "no e rows but one": ([2, 1, 2], [1, 2, 1], 1, {0: [0], 1: [1, 2], 2: [1]}, []),
}
ONE = {
    "one camera": ([2, 2, 2, 2], [2, 2, 2], 2, {0: [0, 2], 1: [0, 2], 2: [1, 2], 3: [1]}, (2, 2, 2)),
    "one camera, rows without point": ([2, 2, 3, 1], [3, 4], 1, {0: [0, 1], 1: [0, 1], 2: [1], 3: [1]}, (2, 3, 4)),
    "one camera of size one": ([3, 3, 3, 2], [2, 2, 1], 2, {0: [0, 2], 1: [0], 2: [1, 2], 3: [2]}, (3, 2, 1)),
    "points only": ([2, 2], [2, 2, 2], 2, {0: [0], 1: [1, 2]}, (2, 2, 2)),
}
CG = {"min_num_iterations": 3, "max_num_iterations": 17, "residual_reset_period": 7, "q_tolerance": "0.25", "r_tolerance": "0.125"}
DEFICIENT = {"a point of two unknowns seen by one equation": ([1, 1], [2, 1, 1], 1, {0: [0, 1], 1: [2]}, []),
             "a point of three unknowns, static sizes": ([2, 1], [3, 2, 1], 1, {0: [0, 1], 1: [2]}, [(2, 3, -1)]),
             "a point of three unknowns seen by two equations": ([2, 1], [3, 2, 1], 1, {0: [0, 1], 1: [1, 2]}, [])}


def run():
    sys.setrecursionlimit(200000)
    C = Check("C27", RULE, floor=60)
    F = facts.load([facts.witness("schur.cc")] + [facts.REPO + "/internal/ceres/" + s for s in FILES])
    W = {}
    for f in F.fns.values():
        if f.q.startswith("w::"):
            W[f.n + (re.sub(r"\s", "", "<" + ",".join(str(x) for x in targs_of(f)) + ">") if f.n in ("Eliminate", "OneFBlock") else "")] = f
    r = rng("c27")
    point = {}

    def val(name):
        if name not in point:
            point[name] = mp(r.num(-3, 3))
        return point[name]

    class Look(dict):
        def __missing__(self, k):
            return val(k)

    def env():
        e = tm.Env({}, pinv_fns())
        e.v = Look()
        return e

    def sym(base, n):
        return array(base, max(1, n), [tm.sym("%s%d" % (base, i)) for i in range(max(1, n))])

    def mat(rows):
        return mpmath.matrix(rows) if rows and rows[0] else mpmath.matrix(len(rows), 0)

    def num(e, v, what):
        if not isinstance(v, T):
            raise Wrong(what + " is unwritten")
        return e.ev(v)

    def inverse(A, full, n):
        return mpmath.inverse(A) if full else pinv([A[i, j] for i in range(n) for j in range(n)], n)

    def reference(blk, ne, vb, bb, with_d, full):
        """S, rhs and y as functions of the symbols; D is D0.. over all columns"""
        d = blk.mat(vb).dense(Look())
        m, n = len(d), blk.cp[-1]
        ec = blk.cp[ne]
        b = [val("%s%d" % (bb, i)) for i in range(m)]
        fn = n - ec
        D = [val("D%d" % i) if with_d else M(0) for i in range(n)]
        ete = mpmath.zeros(ec, ec)
        for i in range(ec):
            for j in range(ec):
                ete[i, j] = sum(d[k][i] * d[k][j] for k in range(m)) + (D[i] ** 2 if i == j else 0)
        inv = mpmath.zeros(ec, ec)
        for k in range(ne):            # block diagonal
            lo, hi = blk.cp[k], blk.cp[k + 1]
            sub = mpmath.matrix(hi - lo, hi - lo)
            for i in range(lo, hi):
                for j in range(lo, hi):
                    sub[i - lo, j - lo] = ete[i, j]
            if any(k in blk.cells.get(i, []) for i in range(len(blk.rs))):
                si = inverse(sub, full, hi - lo)
                for i in range(lo, hi):
                    for j in range(lo, hi):
                        inv[i, j] = si[i - lo, j - lo]
        ef = [[sum(d[k][i] * d[k][ec + j] for k in range(m)) for j in range(fn)] for i in range(ec)]
        eb = [sum(d[k][i] * b[k] for k in range(m)) for i in range(ec)]
        ieb = [sum(inv[i, j] * eb[j] for j in range(ec)) for i in range(ec)]
        ief = [[sum(inv[i, k] * ef[k][j] for k in range(ec)) for j in range(fn)] for i in range(ec)]
        S = [[sum(d[k][ec + i] * d[k][ec + j] for k in range(m)) - sum(ef[k][i] * ief[k][j] for k in range(ec)) + (D[ec + i] ** 2 if i == j else 0) for j in range(fn)] for i in range(fn)]
        rhs = [sum(d[k][ec + i] * b[k] for k in range(m)) - sum(ef[k][i] * ieb[k] for k in range(ec)) for i in range(fn)]
        z = [val("z%d" % i) for i in range(fn)]
        res = [b[k] - sum(d[k][ec + j] * z[j] for j in range(fn)) for k in range(m)]
        er = [sum(d[k][i] * res[k] for k in range(m)) for i in range(ec)]
        y = [sum(inv[i, j] * er[j] for j in range(ec)) for i in range(ec)]
        return S, rhs, y

    def pairs_of(blk, ne):
        """The cells a reduced matrix needs: the diagonal, F'F and F'E E'F."""
        out = {(i, i) for i in range(len(blk.cs) - ne)}
        groups = {}
        for i in range(len(blk.rs)):
            cs = blk.cells.get(i, [])
            f = [c - ne for c in cs if c >= ne]
            out |= {(a, b) for a in f for b in f if a <= b}
            if cs and cs[0] < ne:
                groups.setdefault(cs[0], set()).update(f)
        for g in groups.values():
            out |= {(a, b) for a in g for b in g if a <= b}
        return sorted(out)

    def interp(threads, make=None):
        ip = Interp(F, 12000000)
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(8)
        return ip

    def eliminate(fn, case, threads, full, kind, with_d, use_rhs, again, make=None, null_b=False):
        rs, cs, ne, cells, _ = case
        blk = Blk(rs, cs, cells, order="e first")
        ip = interp(threads)
        nf, fn_cols = len(cs) - ne, blk.cp[-1] - blk.cp[ne]
        pairs = pairs_of(blk, ne) if kind == 2 else []
        flat = [x for p in pairs for x in p]
        P = lambda k, b: Ptr(sym(b, k).reg) if isinstance(sym(b, k), Arr) else sym(b, k)
        present = array("present", max(1, nf * nf), [ZERO] * max(1, nf * nf))
        lhs = array("lhs", max(1, fn_cols ** 2), [UNINIT] * max(1, fn_cols ** 2))
        rhs = array("rhs", max(1, fn_cols), [tm.sym("junk%d" % i) for i in range(max(1, fn_cols))])
        y = array("y", max(1, blk.cp[-1]), [ZERO] * max(1, blk.cp[-1]))
        m = blk.rp[-1]
        args = [ints("s", blk.ints()), const(ne), sym("v", blk.nnz), sym("w", blk.nnz) if again else NULL, NULL if null_b else sym("b", m), NULL if null_b else sym("B", m), sym("D", blk.cp[-1]) if with_d else NULL,
                const(threads), const(full), const(kind), ints("p", flat), const(len(pairs)), const(use_rhs), present, lhs, rhs, sym("z", fn_cols), y]
        try:
            if make is not None:
                co = coop.Coop(ip, make())
                co.run(lambda: ip.call(fn, args))
                if co.races:
                    raise Wrong(co.races[0])
                C.count("thread switches", co.switches)
            else:
                ip.call(fn, args)
        except OutOfRange as ex:
            raise Wrong(ex.msg)
        if any(a is not FALSE for a in ip.aborts):
            raise Wrong("a CHECK fails")
        e = env()
        S, R, Y = reference(blk, ne, "v", "b", with_d, full)
        at = [blk.cp[ne + i] - blk.cp[ne] for i in range(nf + 1)]
        for i in range(nf):
            for j in range(i, nf):
                here = num(e, present.reg.cells[i * nf + j].v, "presence of a cell")
                want = kind == 0 or i == j or kind == 2 and (i, j) in pairs
                if bool(here) != want:
                    raise Wrong("the reduced matrix has %s cell for the blocks %d and %d" % ("a" if here else "no", i, j))
                if not want:
                    continue
                for a in range(at[i], at[i + 1]):
                    for b in range(at[j], at[j + 1]):
                        g = num(e, lhs.reg.cells[a * fn_cols + b].v, "entry (%d,%d) of the reduced matrix" % (a, b))
                        if not tm.close(g, S[a][b], M("1e-9")):
                            raise Wrong("entry (%d,%d) of the reduced matrix is %s, the Schur complement has %s" % (a, b, fmt(g), fmt(S[a][b])))
        if use_rhs:
            for i in range(fn_cols):
                g = num(e, rhs.reg.cells[i].v, "entry %d of the reduced right hand side" % i)
                if not tm.close(g, R[i], M("1e-9")):
                    raise Wrong("entry %d of the reduced right hand side is %s, not %s" % (i, fmt(g), fmt(R[i])))
            for i in range(blk.cp[-1]):
                g = num(e, y.reg.cells[i].v, "entry %d of the back substituted solution" % i)
                w = Y[i] if i < blk.cp[ne] else M(0)
                if not tm.close(g, w, M("1e-9")):
                    raise Wrong("entry %d of the back substituted solution is %s, not %s" % (i, fmt(g), fmt(w)))
        C.count("eliminations")

    def ob(key, loc, f):
        def go():
            try:
                f()
            except Wrong as ex:
                C.violation(key, loc, str(ex))
                return
            except UninitRead as ex:
                C.violation(key, loc, str(ex))
                return
            C.passed(key)
        guarded(C, key, go)

    loc = loc_of(F, "ceres::internal::SchurEliminator<", "Eliminate")
    KN = ["dense", "block diagonal", "block sparse"]
    tname = lambda t: "<%s>" % ",".join(map(str, t))
    for nm, case in list(CASES.items()):
        for t in [(-1, -1, -1)] + case[4]:
            def go(case=case, t=t):
                f = W["Eliminate" + tname(t)]
                modes = [(0, 1, 1, 1, 0), (0, 1, 0, 1, 1), (2, 1, 1, 1, 0), (1, 1, 1, 0, 0), (0, 0, 1, 1, 0)] if t[0] < 0 else [(0, 1, 1, 1, 1), (2, 1, 0, 1, 0), (1, 1, 1, 1, 0), (2, 0, 1, 1, 0)]
                for kind, full, d, u, again in modes:
                    eliminate(f, case, 1, full, kind, d, u, again)
            ob("eliminate%s: %s" % (tname(t), nm), loc, go)
    for nm, case in DEFICIENT.items():
        ob("rank deficient: " + nm, loc, lambda case=case: [eliminate(W["Eliminate" + tname(t)], case, 1, 0, kind, 0, 1, 0) for kind in (0, 2) for t in [(-1, -1, -1)] + case[4]])
    for nm, case in ONE.items():
        def go(case=case):
            f = W["OneFBlock" + tname(case[4])]
            for kind, d, again in [(0, 1, 1), (0, 0, 0), (2, 1, 0), (1, 0, 1)]:
                eliminate(f, case, 1, 1, kind, d, 1, again)
        ob("one f block: " + nm, loc_of(F, "ceres::internal::SchurEliminatorForOneFBlock<", "Eliminate"), go)
    n_sched = 24 if THOROUGH else 3
    for nm, t in [("three points that share cameras", (2, 2, 3)), ("the same camera twice under one point", (-1, -1, -1)), ("mixed sizes", (-1, -1, -1)), ("two points", (2, 2, 2)), ("rows without e block", (-1, -1, -1))]:
        for threads in (2, 3):
            def go(case=CASES[nm], t=t, threads=threads, key=nm):
                for pn, make in policies(n_sched, key):
                    try:
                        eliminate(W["Eliminate" + tname(t)], case, threads, 1, 2 if threads == 2 else 0, 1, 1, 0, make)
                    except Wrong as ex:
                        raise Wrong("%s (%s)" % (ex, pn))
            ob("%d threads: %s" % (threads, nm), loc, go)
    access(C, F, W, ob, interp, env, val, num, sym)
    detect(C, F, W, ob, interp)
    dispatch(C, F, W, ob, interp)
    for nm, case in list(CASES.items()) + list(ONE.items()):
        if nm == "only e blocks":
            continue
        for kind, what in enumerate(["dense", "sparse, upper triangle", "sparse, lower triangle", "iterative, explicit"]):
            def go(case=case, kind=kind):
                for with_d, again in ((1, 1), (0, 0)) if kind < 3 else ((1, 1), (1, 0)):
                    solver(C, F, W, interp, reference, env, val, num, sym, case, kind, with_d, again, kind == 3 and not again)
            ob("solver (%s): %s" % (what, nm), loc_of(F, "ceres::internal::SchurComplementSolver", "SolveImpl"), go)
    return C


def solver(C, F, W, interp, reference, env, val, num, sym, case, kind, with_d, again, ends=0):
    """SchurComplementSolver with an arbitrary solution z of the reduced system: what it asks to be solved and what it does with z."""
    rs, cs, ne, cells = case[:4]
    blk = Blk(rs, cs, cells, order="e first")
    ip = interp(1)
    N, ec = blk.cp[-1], blk.cp[ne]
    fn = N - ec
    seen = []
    OK = const(0)

    def lv(x):
        return ip.load(x) if isinstance(x, (Cell, LVal)) else x

    def solve_with(rhs, sol, k):
        seen[-1]["rhs"] = [ip.load(ip.deref(lv(rhs), const(i))) for i in range(fn)]
        for i in range(fn):
            ip.store(ip.deref(lv(sol), const(i)), tm.sym("%s%d" % ("z", i)))

    def dense(a):
        p = lv(a[1])
        seen.append({"n": int(tm.cval(lv(a[0]))), "S": {(i, j): ip.load(ip.deref(p, const(j * fn + i))) for i in range(fn) for j in range(i + 1)}})

    def get(o, nm):
        return lv(ip.call(method(F, "ceres::internal::CompressedRowSparseMatrix", nm, 0), [], o))

    def sparse(a):
        o = lv(a[0])
        o = ip.load(ip.deref(o)) if isinstance(o, Ptr) else o
        n = int(tm.cval(get(o, "num_rows")))
        rows, cols, vals = get(o, "rows"), get(o, "cols"), get(o, "values")
        at = lambda p, i: int(tm.cval(ip.load(ip.deref(p, const(i)))))
        S = {}
        for i in range(n):
            for k in range(at(rows, i), at(rows, i + 1)):
                j = at(cols, k)
                if (i, j) in S:
                    raise Wrong("entry (%d,%d) of the matrix to be factorised is stored twice" % (i, j))
                S[i, j] = ip.load(ip.deref(vals, const(k)))
        st = int(tm.cval(get(o, "storage_type")))
        if st != (1 if kind == 2 else 2):
            raise Wrong("the matrix to be factorised is declared to hold another triangle than the factorisation asks for")
        # only the triangle that is asked for counts
        seen.append({"n": n, "S": {(max(i, j), min(i, j)): v for (i, j), v in S.items() if (i <= j if kind == 1 else i >= j)}})

    def fs(a, first):
        (dense if kind == 0 else sparse)(a)
        solve_with(a[2] if kind == 0 else a[1], a[3] if kind == 0 else a[2], 0)
        return OK
    def factor(a):
        (dense if kind == 0 else sparse)(a)
        return OK
    def only_solve(a):
        solve_with(a[0], a[1], 0)
        return OK
    chol = Opaque("cholesky", {"FactorAndSolve": lambda ip, a, n: fs(a, 0), "Factorize": lambda ip, a, n: factor(a), "Solve": lambda ip, a, n: only_solve(a),
                               "StorageType": lambda ip, a, n: const(2 if kind == 1 else 1)})
    ip.hooks["ceres::internal::DenseCholesky::Create"] = lambda ip, recv, a, n: chol
    ip.hooks["ceres::internal::SparseCholesky::Create"] = lambda ip, recv, a, n: chol
    ip.hooks["ceres::internal::ScopedExecutionTimer::ScopedExecutionTimer"] = lambda ip, recv, a, n: Obj("ceres::internal::ScopedExecutionTimer")

    ip.hooks["ceres::internal::EventLogger::EventLogger"] = lambda ip, recv, a, n: Obj("ceres::internal::EventLogger")
    ip.hooks["ceres::internal::EventLogger::AddEvent"] = lambda ip, recv, a, n: None
    ip.hooks["ceres::internal::SchurEliminatorBase::Create"] = lambda ip, recv, a, n: make_obj(ip, "ceres::internal::SchurEliminator<-1, -1, -1>", [a[0]])      # the choice is decided on its own

    def cg(ip, recv, a, n):
        op, pre = lv(a[1]), lv(a[3])
        rhs, sol = lv(a[2]), lv(a[5])
        seen.append({"n": fn, "rhs": [c.v for c in rhs.cells()], "start": [c.v for c in sol.cells()]})
        seen[-1]["options"] = {k: lv(a[0]).f[k].v for k in CG}
        for nm, o in (("Sx", op), ("Px", pre)):
            x, y = ip.newmat(fn, 1, fill=ZERO), ip.newmat(fn, 1, fill=ZERO)
            for i in range(fn):
                x.grid[i][0].v = tm.sym("x%d" % i)
                y.grid[i][0].v = tm.sym("y%d" % i)
            ip.call(method(F, o.cls, "RightMultiplyAndAccumulate", 2), [Cell(x), Cell(y)], o)
            seen[-1][nm] = [c.v for c in y.cells()]
        for i in range(fn):
            sol.cells()[i].v = tm.sym("z%d" % i)
        rt = strip_cvref(ip.ty(n))
        o = ip.default(rt)
        ip.default_member_inits(o, rt)
        o.f["termination_type"].v = const(ends)
        return o
    ip.hooks["ceres::internal::ConjugateGradientsSolver"] = cg
    m = blk.rp[-1]
    junk = lambda b: array(b, N, [tm.sym("%s%d" % (b, i)) for i in range(N)])
    x = junk("junk")
    args = [ints("s", blk.ints()), const(ne), sym("v", blk.nnz), sym("w", blk.nnz) if again else NULL, sym("b", m), sym("B", m), sym("D", N) if with_d else NULL, x, junk("x2junk")]
    try:
        ip.call(W["SolveDense" if kind == 0 else "SolveSparse"], args if kind == 0 else [const(kind == 3)] + args)
    except OutOfRange as ex:
        raise Wrong(ex.msg)
    if any(a is not FALSE for a in ip.aborts):
        raise Wrong("a CHECK fails")
    if len(seen) != 1 + again:
        raise Wrong("%d reduced systems are solved in %d calls" % (len(seen), 1 + again))
    e = env()
    S, R, Y = reference(blk, ne, "v", "b", with_d, 1)
    s = seen[-1]
    if s["n"] != fn:
        raise Wrong("the reduced system has %d unknowns, not %d" % (s["n"], fn))
    for i in range(fn):
        g = num(e, s["rhs"][i], "the reduced right hand side")
        if not tm.close(g, R[i], M("1e-9")):
            raise Wrong("entry %d of the reduced right hand side is %s, not %s" % (i, fmt(g), fmt(R[i])))
    if kind < 3:
        for i in range(fn):
            for j in range(i + 1):
                g = num(e, s["S"].get((i, j), ZERO), "entry (%d,%d) of the matrix to be factorised" % (i, j))
                if not tm.close(g, S[i][j], M("1e-9")):
                    raise Wrong("entry (%d,%d) of the matrix to be factorised is %s, the Schur complement has %s" % (i, j, fmt(g), fmt(S[i][j])))
    else:
        X = [val("x%d" % i) for i in range(fn)]
        at = [blk.cp[ne + i] - ec for i in range(len(cs) - ne + 1)]
        P = mpmath.zeros(fn, fn)
        for lo, hi in zip(at, at[1:]):
            inv = mpmath.inverse(mpmath.matrix([[S[i][j] for j in range(lo, hi)] for i in range(lo, hi)]))
            for i in range(lo, hi):
                for j in range(lo, hi):
                    P[i, j] = inv[i - lo, j - lo]
        for i in range(fn):
            if i == 0:
                for k, w in CG.items():
                    g = num(e, s["options"][k], k)
                    if not tm.close(g, M(w)):
                        raise Wrong("%s of conjugate gradients is %s, not %s" % (k, fmt(g), w))
            if not tm.close(num(e, s["start"][i], "the starting point"), M(0)):
                raise Wrong("conjugate gradients does not start at zero")
            for nm, A, what in (("Sx", S, "Schur complement"), ("Px", P.tolist(), "preconditioner")):
                g = num(e, s[nm][i], "the product with the " + what)
                w = val("y%d" % i) + sum(A[i][j] * X[j] for j in range(fn))
                if not tm.close(g, w, M("1e-8")):
                    raise Wrong("entry %d of the product with the %s is %s, not %s" % (i, what, fmt(g), fmt(w)))
    for i in range(N):
        g = num(e, x.reg.cells[i].v, "entry %d of the solution" % i)
        w = Y[i] if i < ec else val("z%d" % (i - ec))
        if not tm.close(g, w, M("1e-9")):
            raise Wrong("entry %d of the solution is %s, not %s" % (i, fmt(g), fmt(w)))
    C.count("solves")


def targs_of(f):
    m = re.search(r"<(.*)>", f.get("ta", "") or "")
    return [x.strip() for x in (m.group(1) if m else f.get("ta", "")).split(",")]


def access(C, F, W, ob, interp, env, val, num, sym):
    """Block random access matrices on their own."""
    sizes_list = [[2, 1, 3], [1], [2, 2], [3, 1, 1, 2]]

    def go(kind, sizes, op, threads, pairs):
        n = len(sizes)
        at = [sum(sizes[:i]) for i in range(n + 1)]
        N = at[-1]
        have = [[kind == 0 or i == j and kind == 1 or kind == 2 and (i, j) in pairs for j in range(n)] for i in range(n)]
        ip = interp(threads)
        present = array("present", n * n + 2, [ZERO] * (n * n + 2))
        out = array("out", N * N, [UNINIT] * (N * N))
        y = sym("y", N)
        flat = [x for p in pairs for x in p]
        try:
            ip.call(W["Access"], [const(kind), ints("sizes", sizes), const(n), ints("p", flat), const(len(pairs)), const(threads), const(op), sym("x", N), y, present, out, sym("v", N * N)])
        except OutOfRange as ex:
            raise Wrong(ex.msg)
        e = env()
        if num(e, present.reg.cells[n * n].v, "rows") != N or num(e, present.reg.cells[n * n + 1].v, "columns") != N:
            raise Wrong("%s rows and %s columns, not %d" % (fmt(e.ev(present.reg.cells[n * n].v)), fmt(e.ev(present.reg.cells[n * n + 1].v)), N))
        blk = lambda i: [k for k in range(n) if at[k] <= i < at[k + 1]][0]
        A = [[val("v%d" % (i * N + j)) if have[blk(i)][blk(j)] else M(0) for j in range(N)] for i in range(N)]
        if op == 1:
            for k in range(n):
                sub = mpmath.matrix([[A[i][j] for j in range(at[k], at[k + 1])] for i in range(at[k], at[k + 1])])
                # the inverse of the symmetric matrix in the upper triangle
                for i in range(sizes[k]):
                    for j in range(i):
                        sub[i, j] = sub[j, i]
                inv = mpmath.inverse(sub)
                for i in range(sizes[k]):
                    for j in range(sizes[k]):
                        A[at[k] + i][at[k] + j] = inv[i, j]
        x = [val("x%d" % i) for i in range(N)]
        if op == 2:
            S = A if kind == 1 else [[A[min(i, j)][max(i, j)] if blk(i) != blk(j) else A[i][j] for j in range(N)] for i in range(N)]
            for i in range(N):
                g = num(e, y.reg.cells[i].v, "the product")
                w = val("y%d" % i) + sum(S[i][j] * x[j] for j in range(N))
                if not tm.close(g, w):
                    raise Wrong("entry %d of the product is %s, not %s" % (i, fmt(g), fmt(w)))
        if op == 3:
            A = [[M(0)] * N for _ in range(N)]
        for i in range(n):
            for j in range(n):
                h = bool(num(e, present.reg.cells[i * n + j].v, "presence"))
                if h != have[i][j]:
                    raise Wrong("GetCell finds %s cell for the blocks %d and %d" % ("a" if h else "no", i, j))
        for i in range(N):
            for j in range(N):
                if have[blk(i)][blk(j)]:
                    g = num(e, out.reg.cells[i * N + j].v, "entry (%d,%d)" % (i, j))
                    if not tm.close(g, A[i][j], M("1e-9")):
                        raise Wrong("entry (%d,%d) is %s, not %s" % (i, j, fmt(g), fmt(A[i][j])))

    names = {0: "dense", 1: "diagonal", 2: "sparse"}
    for kind, op, what in [(0, 0, "cells"), (1, 0, "cells"), (2, 0, "cells"), (1, 1, "inverse"), (1, 2, "product"), (2, 2, "symmetric product"), (0, 3, "SetZero"), (1, 3, "SetZero"), (2, 3, "SetZero")]:
        def all_(kind=kind, op=op):
            for sizes in sizes_list:
                n = len(sizes)
                full = [(i, j) for i in range(n) for j in range(i, n)]
                some = [(i, i) for i in range(n)] + [(0, j) for j in range(1, n, 2)]
                for pairs in ([full, sorted(set(some))] if kind == 2 else [[]]):
                    for threads in (1,):
                        go(kind, sizes, op, threads, pairs)
        cls = {0: "BlockRandomAccessDenseMatrix", 1: "BlockRandomAccessDiagonalMatrix", 2: "BlockRandomAccessSparseMatrix"}[kind]
        ob("%s block random access matrix: %s" % (names[kind], what), loc_of(F, "ceres::internal::" + cls, "GetCell"), all_)


def detect(C, F, W, ob, interp):
    """Static sizes: the common size over the rows with an e block, or dynamic."""
    def want(blk, ne):
        rs, es, fs = set(), set(), set()
        for i in range(len(blk.rs)):
            cs = blk.cells.get(i, [])
            if not cs or cs[0] >= ne:
                break
            rs.add(blk.rs[i])
            es.add(blk.cs[cs[0]])
            fs |= {blk.cs[c] for c in cs[1:]}
        return [(s.pop() if len(s) == 1 else -1 if s else 0) for s in (rs, es, fs)]

    def one(case):
        rs, cs, ne, cells = case
        blk = Blk(rs, cs, cells, order="e first")
        out = array("out", 3, [UNINIT] * 3)
        interp(1).call(W["Detect"], [ints("s", blk.ints()), const(ne), out])
        got = [int(tm.cval(c.v)) for c in out.reg.cells]
        w = want(blk, ne)
        for g, x, nm in zip(got, w, ("row", "e", "f")):
            if g != x and x != 0:
                raise Wrong("the %s block size is detected as %d, it is %s for row sizes %s, column sizes %s and cells %s" % (nm, g, x if x > 0 else "not constant", rs, cs, cells))
    cases = [c[:4] for c in list(CASES.values()) + list(ONE.values())]
    loc = loc_of(F, "ceres::internal::DetectStructure", "DetectStructure")

    def many():
        import random
        r = random.Random("c27")
        for k in range(60):
            ne, nf = 1 + r.randrange(3), 1 + r.randrange(3)
            pick = lambda n, odd: [(r.randrange(1, 4) if r.random() < odd else 2) for _ in range(n)]
            cs = pick(ne + nf, 0.3)
            rows, cells, rs = [], {}, []
            for e in range(ne):
                for _ in range(1 + r.randrange(2)):
                    cells[len(rs)] = [e] + sorted(r.sample(range(ne, ne + nf), r.randrange(nf + 1)))
                    rs.append(2 if r.random() < 0.8 else r.randrange(1, 4))
            for _ in range(r.randrange(2)):
                cells[len(rs)] = [ne + r.randrange(nf)]
                rs.append(r.randrange(1, 4))
            one((rs, cs, ne, cells))
            C.count("structures detected")
    ob("structure detection: fixed structures", loc, lambda: [one(c) for c in cases])
    ob("structure detection: drawn structures", loc, many)


def dispatch(C, F, W, ob, interp):
    """The specialisation chosen for given sizes fits them: each static size is the given one."""
    def go(what):
        for row in (-1, 1, 2, 3, 4, 5):
            for e in (-1, 1, 2, 3, 4, 5, 8):
                for f in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12):
                    ip = interp(1)
                    got = []

                    def make(ip, recv, a, n, got=got):
                        m = re.search(r"<\s*(-?\d+)\s*,\s*(-?\d+)\s*,\s*(-?\d+)\s*>", n.get("ta", "") + ip.ty(n))
                        if m is None:
                            return ip.std_call("std::make_unique", n["c"][1:], n)
                        got.append([int(x) for x in m.groups()])
                        return Opaque("specialisation")
                    ip.hooks["std::make_unique"] = make
                    out = array("out", 3, [UNINIT] * 3)
                    ip.call(W["Choose"], [const(what), const(row), const(e), const(f), out])
                    t = [int(tm.cval(c.v)) for c in out.reg.cells] if what == 1 else got[-1] if got else None
                    if t is None:
                        raise Wrong("nothing is chosen for the sizes (%d,%d,%d)" % (row, e, f))
                    if any(x != -1 and x != y for x, y in zip(t, (row, e, f))):
                        raise Wrong("for the sizes (%d,%d,%d) the specialisation <%d,%d,%d> is chosen" % ((row, e, f) + tuple(t)))
                    C.count("dispatches")
    for what, nm, cls, fn in ((0, "Schur eliminator", "ceres::internal::SchurEliminatorBase", "Create"), (1, "best specialisation", "ceres::internal::GetBestSchurTemplateSpecialization", "GetBestSchurTemplateSpecialization"),
                              (2, "partitioned matrix view", "ceres::internal::PartitionedMatrixViewBase", "Create")):
        ob("dispatch: " + nm, loc_of(F, cls, fn), lambda what=what: go(what))
