"""C31: evaluators assemble cost, residuals, gradient and Jacobian of a program."""
import itertools, sys
import mpmath
from alg import *
import coop, facts
from check import Check
from rotmath import mp
from props import c11, c13, c25
from props.c25 import ints
from props.c26 import policies
from props.c27 import Wrong
RULE = ("value numbering of the evaluators Evaluator::Create makes, over programs with uninterpreted cost functions, losses and manifolds, every subset of outputs, one and several threads: cost, residuals, gradient and Jacobian terms == the sums and "
        "stacked blocks of the corrected residual blocks at the given state; structure, layout and size limits of the Jacobian; one callback per evaluation, after the user's memory has the new state")
FILES = c13.SRC + c25.FILES if isinstance(getattr(c25, "FILES", None), list) else list(c13.SRC) + list(c25.FILES)
MORE = ["program.cc", "parameter_block.cc", "evaluator.cc", "block_evaluate_preparer.cc", "block_jacobian_writer.cc", "compressed_row_jacobian_writer.cc", "dynamic_compressed_row_jacobian_writer.cc", "dynamic_compressed_row_sparse_matrix.cc", "scratch_evaluate_preparer.cc",
        "dense_sparse_matrix.cc", "block_sparse_matrix.cc", "block_structure.cc", "compressed_row_sparse_matrix.cc", "triplet_sparse_matrix.cc", "parallel_for.cc", "parallel_utils.cc", "parallel_invoke.cc", "context_impl.cc", "thread_pool.cc", "thread_token_provider.cc"]
M = mpmath.mpf
DENSE, BLOCK, CRS, DYNAMIC = range(4)
KIND = {DENSE: "dense", BLOCK: "block sparse", CRS: "compressed row", DYNAMIC: "dynamic compressed row"}
#      blocks (size, tangent, constant), order of the varying ones, residual blocks (residuals, loss, blocks), number of e blocks
CASES = {
    "manifolds and losses": ([(2, 1, 0), (1, -1, 0), (3, 2, 0)], [0, 1, 2], [(2, 0, [0, 1]), (1, 1, [1]), (3, 1, [2, 0]), (2, 0, [1, 2, 0])], 1),
    "a constant block among the others": ([(2, -1, 0), (2, 1, 1), (1, 1, 0), (3, -1, 0)], [0, 2, 3], [(2, 1, [1, 0]), (1, 0, [3, 1, 2]), (2, 0, [2, 0, 1])], 2),
    "blocks in another order": ([(1, -1, 0), (2, -1, 0), (2, 1, 0)], [2, 0, 1], [(1, 0, [0, 1, 2]), (2, 1, [1, 0]), (2, 0, [2])], 1),
    "a block nothing depends on": ([(2, 1, 0), (2, -1, 0)], [0, 1], [(1, 1, [0]), (3, 0, [0])], 0),
    "a block that cannot move": ([(2, 0, 0), (1, -1, 0), (2, -1, 0)], [1, 2], [(2, 0, [0, 1]), (1, 1, [2, 0, 1])], 1),
    "only blocks to eliminate": ([(2, -1, 0), (1, -1, 0)], [1, 0], [(1, 0, [0]), (2, 0, [1])], 2),
    "a residual of one constant block": ([(2, -1, 0), (1, -1, 1)], [0], [(1, 1, [1]), (2, 0, [0, 1]), (1, 0, [0])], 1),
}
NAMES = ("A", "Ok", "Rho", "PJ", "OkPJ", "Pl")


def run():
    sys.setrecursionlimit(200000)
    C = Check("C31", RULE, floor=60)
    F = facts.load([facts.witness("evaluator.cc")] + [facts.REPO + "/internal/ceres/" + f for f in dict.fromkeys(FILES + MORE) if os.path.exists(facts.REPO + "/internal/ceres/" + f)])
    W = {f.n: f for f in F.fns.values() if f.q.startswith("w::")}
    E = lambda n, k: dict((q["n"], q["v"]) for q in F.enums["ceres::" + n]["vals"])[k]
    r = rng("c31")
    point = {}

    def val(name):
        if name not in point:
            point[name] = mp(r.num(-2, 2))
        return point[name]

    class Look(dict):
        def __missing__(self, k):
            return val(k)

    zero = lambda c, i, b, k: (c + 2 * i + b + 3 * k) % 4 == 1

    def fns(sparse=False, bad=(), badpj=(), huge=None):
        def Af(c, i, b, k):
            c, i, b, k = (int(round(float(q))) for q in (c, i, b, k))
            if sparse and zero(c, i, b, k):
                return M(0)
            return mpmath.sin(M(7 * c + 3 * i + 5 * b + k + 1)) + (1 if k % 2 else -1)

        def Rho(l, k, s):
            if huge is not None and int(round(float(l))) == huge and k == 0:
                return M("inf")
            a = M(1) / (l + 2)
            t = 1 + a * s                      # log-like for even losses, convex for odd ones
            if int(round(float(l))) % 2 == 0:
                return (mpmath.log(t) / a, 1 / t, -a / t ** 2)[int(round(float(k)))]
            return (s + a * s * s / 40 - 9, 1 + a * s / 20, a / 20)[int(round(float(k)))]      # of either sign
        return {"A": Af, "Ok": lambda c: M(0 if int(round(float(c))) in bad else 1), "Rho": Rho, "PJ": lambda b, i, k, x: mpmath.sin(2 * x + b + 3 * i + 5 * k) + 2, "OkPJ": lambda b, x: M(0 if any(int(round(float(b))) == q and x == w for q, w in badpj) else 1),
                "Pl": lambda b, i, x, d: mpmath.sin(3 * x + b + i) + d}

    def env(fn):
        e = tm.Env({}, fn)
        e.v = Look()
        return e

    def interp(decide=None):
        ip = Interp(F, 12000000)
        c11.hooks(ip, NAMES)
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(8)
        for n in ("StrAppend", "StrAppendFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: None
        for n in ("StrCat", "StrFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: Opaque("string")
        ip.decide = decide
        return ip

    def call(ip, fn, args, make=None, e=None):
        try:
            if make is None:
                v = ip.call(fn, args)
            else:
                co = coop.Coop(ip, make())
                got = []
                co.run(lambda: got.append(ip.call(fn, args)))
                v = got[0]
                if co.races:
                    raise Wrong(co.races[0])
                C.count("thread switches", co.switches)
        except OutOfRange as ex:
            raise Wrong(ex.msg)
        if any(a is not FALSE and (e is None or e.ev(a)) for a in ip.aborts):
            raise Wrong("a CHECK fails")
        return v

    def num(e, v, what):
        if not isinstance(v, T):
            raise Wrong(what + " is unwritten")
        return e.ev(v)

    def same(e, arr, want, what, tol="1e-12"):
        for i, w in enumerate(want):
            g = num(e, arr.reg.cells[i].v, "entry %d of the %s" % (i, what))
            if not tm.close(g, w, M(tol)):
                raise Wrong("entry %d of the %s is %s, not %s" % (i, what, fmt(g), fmt(w)))

    def untouched(arr, what):
        for i, c in enumerate(arr.reg.cells):
            if isinstance(c.v, T):
                raise Wrong("entry %d of the %s is written although it was not asked for" % (i, what))

    def ob(key, loc, f):
        def go():
            try:
                f()
            except Wrong as ex:
                C.violation(key, loc, str(ex))
                return
            except UninitRead as ex:
                C.violation(key, loc, str(ex))
                return
            C.passed(key)
        guarded(C, key, go)

    def spec(case):
        blocks, order, res = case[:3]
        out = [len(blocks)]
        for b in blocks:
            out += b
        out += [len(order)] + order + [len(res)]
        for nres, loss, bs in res:
            out += [nres, loss, len(bs)] + bs
        return out

    sym = lambda base, n: array(base, max(1, n), [tm.sym("%s%d" % (base, i)) for i in range(max(1, n))])
    tan = lambda b: b[0] if b[1] < 0 else b[1]
    still = lambda b: b[2] or tan(b) == 0

    def reference(case, fn, apply, base):
        """cost, residuals, gradient, Jacobian at the state named by base"""
        blocks, order, res = case[:3]
        at, u = [], 0
        for b in blocks:
            at.append(u)
            u += b[0]
        so, do, st, dt = {}, {}, 0, 0
        for i in order:
            so[i], do[i] = st, dt
            st += blocks[i][0]
            dt += tan(blocks[i])
        val_of = lambda i, k: val("%s%d" % (base, so[i] + k)) if i in so else val("u%d" % (at[i] + k))
        cost, rs, J = M(0), [], []
        for c, (nres, loss, bs) in enumerate(res):
            rr = [sum(fn["A"](c, i, b, k) * (val_of(ib, k) + val_of(ib, k) ** 2 / 2) for b, ib in enumerate(bs) for k in range(blocks[ib][0])) for i in range(nres)]
            Jr = [[M(0)] * dt for _ in range(nres)]
            for b, ib in enumerate(bs):
                if still(blocks[ib]):
                    continue
                bl = blocks[ib]
                Ja = [[fn["A"](c, i, b, k) * (1 + val_of(ib, k)) for k in range(bl[0])] for i in range(nres)]
                if bl[1] >= 0:
                    Ja = [[sum(row[k] * fn["PJ"](ib, k, q, val_of(ib, k)) for k in range(bl[0])) for q in range(bl[1])] for row in Ja]
                for i in range(nres):
                    for q in range(tan(bl)):
                        Jr[i][do[ib] + q] += Ja[i][q]
            s = sum(v * v for v in rr)
            if loss and apply:
                rho = [fn["Rho"](c, k, s) for k in range(3)]
                cost += rho[0] / 2
                if s == 0 or rho[2] <= 0:
                    alpha = M(0)
                else:
                    alpha = 1 - mpmath.sqrt(max(M(0), 1 + 2 * s * rho[2] / rho[1]))
                q1 = mpmath.sqrt(rho[1])
                Jr = [[q1 * (Jr[i][k] - (alpha / s if s else 0) * rr[i] * sum(rr[p] * Jr[p][k] for p in range(nres))) for k in range(dt)] for i in range(nres)]
                rr = [q1 / (1 - alpha) * v for v in rr]
            else:
                cost += s / 2
            rs += rr
            J += Jr
        g = [sum(J[i][k] * rs[i] for i in range(len(rs))) for k in range(dt)]
        return cost, rs, g, J, st, dt, u

    def conf(kind, ne):
        """linear solver type, dynamic sparsity, sparse library, e blocks"""
        return {DENSE: (E("LinearSolverType", "DENSE_QR"), 0, 1, 0), BLOCK: (E("LinearSolverType", "SPARSE_SCHUR"), 0, 1, ne), CRS: (E("LinearSolverType", "CGNR"), 0, E("SparseLinearAlgebraLibraryType", "CUDA_SPARSE"), 0),
                DYNAMIC: (E("LinearSolverType", "SPARSE_NORMAL_CHOLESKY"), 1, 1, 0)}[kind]

    def evaluate(case, kind, mask, apply, fresh, watch, first, threads, make=None, bad=(), badpj=(), huge=None):
        fn = fns(kind == DYNAMIC, bad, badpj, huge)
        e = env(fn)
        cost, rs, g, J, nx, nd, nu = reference(case, fn, apply, "x")
        if badpj:                              # where the evaluation starts, not in the memory of the user
            badpj[:] = [(b, val("x%d" % sum(case[0][i][0] for i in case[1][:case[1].index(b)]))) for b in badpj]
        ip = interp((lambda q: e.ev(q)) if kind == DYNAMIC or make is not None else None)
        un = lambda n, k: array(n, max(1, k), [UNINIT] * max(1, k))
        m = len(rs)
        out, rv, gv, jv, calls, seen, sizes = un("cost", 1), un("res", m), un("grad", nd), un("jac", m * nd), array("calls", 3, [const(0)] * 3), un("seen", nu), un("sizes", 5)
        u = sym("u", nu)
        ok = call(ip, W["Evaluate"], [u, const(nu), ints("s", spec(case))] + [const(q) for q in conf(kind, case[3])] + [const(threads), const(first), sym("z", nx), sym("x", nx), const(mask), const(bool(apply)), const(bool(fresh)), const(watch), out, rv, gv, jv, calls, seen, sizes], make, e)
        ok = num(e, ok, "the result")
        same(e, sizes, [nx, nd, m, m, nd], "sizes")
        C.count("evaluations")
        C.count("residual blocks evaluated", len(case[2]))
        if bad or badpj or huge is not None:
            if ok != 0:
                raise Wrong("succeeds although %s" % ("a cost function fails" if bad else "the Jacobian of a manifold fails" if badpj else "the cost is not finite"))
            return
        if ok != 1:
            raise Wrong("fails although nothing it calls fails")
        same(e, out, [cost], "cost")
        if mask & 1:
            same(e, rv, rs, "residuals")
        else:
            untouched(rv, "residuals")
        if mask & 2:
            same(e, gv, g, "gradient")
        else:
            untouched(gv, "gradient")
        if mask & 4:
            same(e, jv, [J[i][k] for i in range(m) for k in range(nd)], "Jacobian")
        if watch:
            same(e, calls, [1, 1 if mask & 6 else 0, 1 if fresh else 0], "calls of the callback (number, Jacobians, new point)")
        blocks, order = case[:2]
        at, so, st, w = 0, {}, 0, []
        for i in order:
            so[i] = st
            st += blocks[i][0]
        for i, b in enumerate(blocks):
            w += [val("x%d" % (so[i] + k)) if i in so else val("u%d" % (at + k)) for k in range(b[0])]
            at += b[0]
        if watch:
            same(e, seen, w, "memory of the user at the callback")

    EV = loc_of(F, "ceres::internal::ProgramEvaluator", "Evaluate")
    locs = {DENSE: ("DenseJacobianWriter", "Write"), BLOCK: ("BlockJacobianWriter", "CreateJacobian"), CRS: ("CompressedRowJacobianWriter", "Write"), DYNAMIC: ("DynamicCompressedRowJacobianWriter", "Write")}
    for kind in KIND:
        for nm, case in CASES.items():
            for mask in range(8):
                def go(case=case, kind=kind, mask=mask):
                    evaluate(case, kind, mask, 1, mask % 2 == 0, mask != 3, mask in (1, 6, 7), 1)
                    if THOROUGH or mask in (3, 4, 7):
                        evaluate(case, kind, mask, 0, 1, 1, 1, 1)
                what = " and ".join(w for b, w in ((1, "residuals"), (2, "gradient"), (4, "Jacobian")) if mask & b) or "cost alone"
                ob("%s, %s: %s" % (KIND[kind], what, nm), loc_of(F, "ceres::internal::" + locs[kind][0], locs[kind][1]) if mask & 4 else EV, go)

    # --- failures
    for kind in KIND:
        for mask in (0, 2, 5):
            def go(kind=kind, mask=mask):
                for nm in ("manifolds and losses", "a constant block among the others"):
                    case = CASES[nm]
                    n = len(case[2])
                    for bad in [(i,) for i in range(n)] + [(0, n - 1)]:
                        evaluate(case, kind, mask, 1, 1, 1, 0, 1, bad=bad)
                    loss = [i for i, q in enumerate(case[2]) if q[1]]
                    for huge in loss:
                        evaluate(case, kind, mask, 1, 1, 1, 0, 1, huge=huge)
                    for b in [i for i in case[1] if case[0][i][1] >= 0]:
                        evaluate(case, kind, mask, 1, 1, 0, 0, 1, badpj=[b])
            ob("%s: failures, outputs %d" % (KIND[kind], mask), EV, go)

    # --- several threads
    n_sched = 6 if THOROUGH else 1
    for kind in KIND:
        for nm in ("manifolds and losses", "a constant block among the others", "only blocks to eliminate"):
            def go(kind=kind, nm=nm):
                for k, (pn, make) in enumerate(policies(n_sched, nm + str(kind))):
                    if kind == DYNAMIC and k % 2 and not THOROUGH:
                        continue
                    for threads in (2, 3) if THOROUGH else (2 + k % 2,):
                        try:
                            evaluate(CASES[nm], kind, 7 if k % 2 == 0 else 6, 1, 1, k % 3 == 0, k % 2, threads, make)
                        except Wrong as ex:
                            raise Wrong("%d threads (%s): %s" % (threads, pn, ex))
            ob("%s, several threads: %s" % (KIND[kind], nm), EV, go)

    def failing_threads():
        case = CASES["manifolds and losses"]
        for pn, make in policies(1, "fail"):
            for bad in ((0,), (3,), (1, 2)):
                try:
                    evaluate(case, BLOCK, 7, 1, 1, 0, 0, 2, make, bad=bad)
                except Wrong as ex:
                    raise Wrong("2 threads (%s): %s" % (pn, ex))
    ob("failures, several threads", EV, failing_threads)

    # --- the step
    def plus(case, threads, make=None):
        blocks, order = case[:2]
        nx, nd, nu = sum(blocks[i][0] for i in order), sum(tan(blocks[i]) for i in order), sum(b[0] for b in blocks)
        fn = fns()
        e = env(fn)
        ip = interp()
        y = array("y", nx, [UNINIT] * nx)
        ok = num(e, call(ip, W["Plus"], [sym("u", nu), ints("s", spec(case)), const(threads), sym("x", nx), sym("d", nd), y], make, e), "the result")
        if ok != 1:
            raise Wrong("fails although no manifold fails")
        w, st, dt = [], 0, 0
        for i in order:
            b = blocks[i]
            for k in range(b[0]):
                w.append(fn["Pl"](i, k, val("x%d" % (st + k)), val("d%d" % (dt + k % b[1]))) if b[1] >= 0 else val("x%d" % (st + k)) + val("d%d" % (dt + k)))
            st += b[0]
            dt += tan(b)
        same(e, y, w, "state after the step")
    for nm, case in CASES.items():
        def go(case=case, nm=nm):
            plus(case, 1)
            for pn, make in policies(0, nm)[::2]:
                plus(case, 2, make)
        ob("step: " + nm, loc_of(F, "ceres::internal::Program", "Plus"), go)

    # --- structure of the Jacobians
    def structure(case, kind):
        blocks, order, res, ne = case
        fn = fns()
        _, _, _, J, _, nd, nu = reference(case, fn, 1, "x")
        ne = ne if kind == BLOCK else 0
        out = array("out", 400, [UNINIT] * 400)
        c = conf(kind, ne)
        e = env(fn)
        k = num(e, call(interp(), W["Structure"], [sym("u", nu), ints("s", spec(case)), const(c[0]), const(c[2] if kind == CRS else 0), const(ne), out], None, e), "the result")
        got = [int(num(e, q.v, "the structure")) for q in out.reg.cells[:int(k)]]
        at = [0]

        def take(n=1):
            v = got[at[0]:at[0] + n]
            at[0] += n
            return v
        pos = lambda sizes: [(n, sum(sizes[:i])) for i, n in enumerate(sizes)]
        cols, rows = pos([tan(blocks[i]) for i in order]), pos([q[0] for q in res])
        if take(2) != [sum(n for n, _ in rows), nd]:
            raise Wrong("size")
        live = [sorted(order.index(ib) for ib in q[2] if not still(blocks[ib])) for q in res]
        pairs = lambda: [tuple(take(2)) for _ in range(take()[0])]
        if pairs() != cols:
            raise Wrong("column blocks")
        nnz = sum(q[0] * sum(cols[c][0] for c in l) for q, l in zip(res, live))
        if kind == CRS:
            if pairs() != rows:
                raise Wrong("row blocks")
            want, wc = [0], []
            for q, l in zip(res, live):
                line = [cols[c][1] + i for c in l for i in range(cols[c][0])]
                for _ in range(q[0]):
                    wc += line
                    want.append(len(wc))
            if take(len(want)) != want:
                raise Wrong("row starts")
            if take(len(wc)) != wc:
                raise Wrong("column indices")
        else:
            if take() != [len(res)]:
                raise Wrong("number of row blocks")
            used, ebase = [], 0
            ends = {True: 0, False: sum(q[0] * cols[c][0] for q, l in zip(res, live) for c in l if c < ne)}
            for i, (q, l) in enumerate(zip(res, live)):
                if tuple(take(2)) != rows[i]:
                    raise Wrong("row block %d" % i)
                cells = [tuple(take(2)) for _ in range(take()[0])]
                if [c for c, _ in cells] != l:
                    raise Wrong("cells of row block %d are %s, not those of column blocks %s" % (i, [c for c, _ in cells], l))
                for c, p in cells:
                    if p != ends[c < ne]:
                        raise Wrong("values of cell (%d,%d) start at %d, not %d" % (i, c, p, ends[c < ne]))
                    ends[c < ne] += q[0] * cols[c][0]
        if take() != [nnz]:
            raise Wrong("number of nonzeros")
        C.count("structures")
    for kind in (BLOCK, CRS):
        for nm, case in CASES.items():
            def go(case=case, kind=kind):
                for ne in range(len(case[1]) + 1) if kind == BLOCK else (0,):
                    structure(case[:3] + (ne,), kind)
            ob("structure, %s: %s" % (KIND[kind], nm), loc_of(F, "ceres::internal::" + locs[kind][0], "CreateJacobian"), go)

    # --- kinds of solvers, and what is too large
    def kinds():
        case = CASES["manifolds and losses"]
        for nm, k in [("DENSE_QR", 1), ("DENSE_NORMAL_CHOLESKY", 1), ("DENSE_SCHUR", 1), ("SPARSE_SCHUR", 1), ("ITERATIVE_SCHUR", 1), ("CGNR", 1), ("SPARSE_NORMAL_CHOLESKY", 1)]:
            for dyn in (0, 1):
                v = num(env(fns()), call(interp(), W["Kind"], [sym("u", 6), ints("s", spec(case)), const(E("LinearSolverType", nm)), const(dyn), const(1)], None, env(fns())), "the result")
                if v != k:
                    raise Wrong("no Jacobian for %s" % nm)
    ob("an evaluator for each linear solver", loc_of(F, "ceres::internal::Evaluator", "Create"), kinds)

    LARGE = {
        "one block": ([(40000, -1, 0)], [0], [(60000, 0, [0])], 0),
        "two residual blocks": ([(40000, -1, 0), (40000, -1, 0)], [0, 1], [(30000, 0, [0]), (30000, 0, [1])], 0),
        "just too large": ([(32768, -1, 0), (32768, -1, 0)], [0, 1], [(32768, 0, [0]), (32767, 0, [0, 1]), (1, 0, [1]), (32768, 0, [1])], 0),
        "more entries than an unsigned counts": ([(65536, -1, 0), (1, -1, 0)], [0, 1], [(65536, 0, [0]), (1, 0, [1])], 0),
        "blocks of both kinds": ([(40000, -1, 0), (40000, -1, 0)], [0, 1], [(30000, 0, [0]), (30000, 0, [1])], 1),
        "many entries to eliminate": ([(40000, -1, 0), (10, -1, 0)], [0, 1], [(60000, 0, [0]), (30, 0, [1])], 1),
        "only blocks to eliminate": ([(40000, -1, 0), (40000, -1, 0)], [0, 1], [(30000, 0, [0]), (30000, 0, [1])], 2),
        "more entries to eliminate than an unsigned counts": ([(65536, -1, 0), (1, -1, 0)], [0, 1], [(65536, 0, [0]), (1, 0, [1])], 1),
    }
    for kind in (BLOCK, CRS):
        for nm, case in LARGE.items():
            if kind == CRS and case[3]:
                continue
            def go(case=case, kind=kind):
                ip = interp()
                ip.max_steps = 400000
                ip.intlog = []
                e = env(fns())
                v, late = None, None
                try:
                    v = num(e, call(ip, W["Fits"], [sym("u", 1), ints("s", spec(case)), const(kind == CRS), const(case[3])], None, e), "the result")
                except Unsupported as ex:      # the matrix is being made
                    late = ex
                for g, t, bits, where in ip.intlog:
                    x = e.ev(t)
                    if not -2 ** bits <= x < 2 ** bits and e.ev(g):
                        raise Wrong("the integer expression at %s has the value %s, outside its type" % (where, fmt(x)))
                if late is not None:
                    raise late
                if v != 0:
                    raise Wrong("a matrix of more entries than an int counts is created")
                C.count("sizes")
            ob("too many entries, %s: %s" % (KIND[kind], nm), loc_of(F, "ceres::internal::" + locs[kind][0], "CreateJacobian"), go)
    return C
