"""C25: the sparse and dense matrix formats."""
from alg import *
import facts
from check import Check
from rotmath import mp
RULE = ("value numbering of every operation of the triplet, compressed row, block sparse and dense formats over concrete structures and symbolic values: products, column norms, scaling, conversions, transposes, appended, deleted and resized rows, "
        "for one thread and for many == the same operation on the dense matrix they represent; the structure of every conversion is well formed")
FILES = ("triplet_sparse_matrix.cc", "block_sparse_matrix.cc", "compressed_row_sparse_matrix.cc", "dense_sparse_matrix.cc", "sparse_matrix.cc", "linear_operator.cc", "block_structure.cc", "context_impl.cc", "parallel_vector_ops.cc", "parallel_invoke.cc")
OPS = ["y += A x", "y += A' x", "squared column norms", "column scaling", "SetZero"]
BIG = 120


class Mat:
    """A matrix as a list of (row, col, index of the value or None for a structural zero)."""

    def __init__(self, rows, cols, ent):
        self.rows, self.cols, self.ent = rows, cols, ent

    def dense(self, v):
        d = [[M(0)] * self.cols for _ in range(self.rows)]
        for r, c, k in self.ent:
            if k is not None:
                d[r][c] += v[k]
        return d


M = mp(0).__class__


class Blk:
    def __init__(self, rs, cs, cells, order="row"):
        """cells: {row block: [col blocks]}; order of the cells' values in memory."""
        self.rs, self.cs, self.cells = rs, cs, cells
        self.rp = [sum(rs[:i]) for i in range(len(rs) + 1)]
        self.cp = [sum(cs[:i]) for i in range(len(cs) + 1)]
        lst = [(i, j) for i in range(len(rs)) for j in cells.get(i, [])]
        mem = sorted(lst, key=lambda t: t[1] > 0) if order == "e first" else lst
        pos, at = {}, 0
        for i, j in mem:
            pos[i, j] = at
            at += rs[i] * cs[j]
        self.list, self.pos, self.nnz = lst, pos, at

    def ints(self):
        out = [len(self.rs), len(self.cs), len(self.list)] + self.rs + self.cs
        for i, j in self.list:
            out += [i, j, self.pos[i, j]]
        return out

    def mat(self, base="v", rows=None):
        n = len(self.rs) if rows is None else rows
        return Mat(self.rp[n], self.cp[-1], [(self.rp[i] + a, self.cp[j] + b, "%s%d" % (base, self.pos[i, j] + a * self.cs[j] + b))
                                             for i, j in self.list if i < n for a in range(self.rs[i]) for b in range(self.cs[j])])


def below(a, b):
    return Mat(a.rows + b.rows, a.cols, a.ent + [(r + a.rows, c, k) for r, c, k in b.ent])


def ints(name, vals):
    return array(name, max(1, len(vals)), [const(v) for v in vals] or [ZERO])


def triplet(rows, cols, ent, cap=None):
    return [rows, cols, len(ent), len(ent) if cap is None else cap] + [x for e in ent for x in e]


def schedules(ip, when):
    """Tasks given to the thread pool run when the caller starts to wait, or at once."""
    def add(ip, recv, a, nd):
        t = ip.load(a[0]) if isinstance(a[0], (Cell, LVal)) else a[0]
        if when == "at once":
            ip.apply(t, [])
        else:
            ip.pending.append(lambda: ip.apply(t, []))
    ip.hooks["ceres::internal::ThreadPool::AddTask"] = add


def run():
    C = Check("C25", RULE, floor=60)
    F = facts.load([facts.witness("matrices.cc")] + [facts.REPO + "/internal/ceres/" + s for s in FILES])
    r = rng("c25")
    W = {f.n: f for f in F.fns.values() if f.q.startswith("w::")}
    point = {}

    def val(name):
        if name not in point:
            point[name] = mp(r.num(-3, 3))
        return point[name]

    class Look(dict):
        def __missing__(self, k):
            return val(k)
    look = Look()

    def env():
        e = tm.Env({})
        e.v = look
        return e

    def num(e, c, what):
        t = c.v
        if not isinstance(t, T):
            raise Wrong(what + " is unwritten")
        return e.ev(t)

    class Wrong(Exception):
        pass

    def interp(schedule="later"):
        ip = Interp(F, 8000000)
        schedules(ip, schedule)
        return ip

    def check_dense(e, mat, size, out, what="the matrix", nnz=None):
        d = mat.dense(look)
        for i, (nm, w) in enumerate((("rows", mat.rows), ("columns", mat.cols), ("nonzeros", nnz), ("dense rows", mat.rows), ("dense columns", mat.cols))):
            if w is not None and num(e, size.reg.cells[i], nm) != w:
                raise Wrong("%s of %s: %s, not %s" % (nm, what, fmt(num(e, size.reg.cells[i], nm)), w))
        for i in range(mat.rows):
            for j in range(mat.cols):
                g = num(e, out.reg.cells[i * mat.cols + j], "entry (%d,%d) of %s" % (i, j, what))
                if not tm.close(g, d[i][j]):
                    raise Wrong("entry (%d,%d) of %s is %s, not %s" % (i, j, what, fmt(g), fmt(d[i][j])))

    def linear(e, op, mat, io, size, out, nnz, zero_nnz=None):
        """The result of operation op on mat."""
        d = mat.dense(look)
        n = {0: mat.rows, 1: mat.cols, 2: mat.cols}.get(op, 0)
        x = lambda i: val("x%d" % i)
        for i in range(len(io.reg.cells)):
            if i >= n:
                w = val("y%d" % i)
            elif op == 0:
                w = val("y%d" % i) + sum(d[i][j] * x(j) for j in range(mat.cols))
            elif op == 1:
                w = val("y%d" % i) + sum(d[j][i] * x(j) for j in range(mat.rows))
            else:
                w = sum(d[j][i] ** 2 for j in range(mat.rows))
            g = num(e, io.reg.cells[i], "result %d" % i)
            if not tm.close(g, w):
                raise Wrong("element %d of the result is %s, not %s" % (i, fmt(g), fmt(w)))
        if op == 3:
            after = Mat(mat.rows, mat.cols, [(a, b, "scaled %s %d" % (k, b)) for a, b, k in mat.ent])
            for a, b, k in mat.ent:
                if k is not None:
                    point["scaled %s %d" % (k, b)] = val(k) * x(b)
                else:
                    point["scaled %s %d" % (k, b)] = M(0)
        elif op == 4:
            after = Mat(mat.rows, mat.cols, [])
            nnz = nnz if zero_nnz is None else zero_nnz
        else:
            after = mat
        check_dense(e, after, size, out, "the matrix afterwards", nnz)

    def bufs(mat):
        n = max(mat.rows, mat.cols)
        return array("x", n), array("y", n), array("size", 6, "uninit"), array("out", mat.rows * mat.cols + 1, "uninit")

    def check_crs(e, mat, size, rows, cols, values, rb=None, cb=None, rblk=None, cblk=None, storage=None, square_entries=True):
        ent = sorted((a, b, k) for a, b, k in mat.ent)
        want = [mat.rows, mat.cols, mat.rows + 1, len(ent), len(ent)]
        got = [num(e, size.reg.cells[i], "size") for i in range(5)]
        for nm, g, w in zip(("rows", "columns", "row starts", "column indices", "values"), got, want):
            if g != w:
                raise Wrong("number of %s is %s, not %s" % (nm, fmt(g), w))
        starts = [int(num(e, rows.reg.cells[i], "row start")) for i in range(mat.rows + 1)]
        w = [sum(1 for q in ent if q[0] < i) for i in range(mat.rows + 1)]
        if starts != w:
            raise Wrong("row starts are %s, not %s" % (starts, w))
        for i in range(mat.rows):
            seg = [(int(num(e, cols.reg.cells[k], "column index")), num(e, values.reg.cells[k], "value")) for k in range(starts[i], starts[i + 1])]
            cs = [q[0] for q in seg]
            if cs != sorted(cs):
                raise Wrong("columns of row %d are %s: not in order" % (i, cs))
            wr = [(b, val(k) if k is not None else M(0)) for a, b, k in ent if a == i]
            if cs != [q[0] for q in wr]:
                raise Wrong("columns of row %d are %s, not %s" % (i, cs, [q[0] for q in wr]))
            for (c, g), (_, v) in zip(seg, wr):
                if not tm.close(g, v):
                    raise Wrong("entry (%d,%d) is %s, not %s" % (i, c, fmt(g), fmt(v)))
        if storage is not None and num(e, size.reg.cells[5], "storage type") != storage:
            raise Wrong("storage type is %s, not %s" % (fmt(num(e, size.reg.cells[5], "")), storage))
        for nm, P, blk in (("row blocks", rb, rblk), ("column blocks", cb, cblk)):
            if P is None or blk is None:
                continue
            g = [int(num(e, P.reg.cells[i], nm)) for i in range(1 + 2 * len(blk)) if isinstance(P.reg.cells[i].v, T)]
            at, w = 0, [len(blk)]
            for b in blk:
                w += [b, at]
                at += b
            if g[:1] != w[:1] or [g[i] for i in range(1, len(g), 2)] != [w[i] for i in range(1, len(w), 2)]:
                raise Wrong("%s (size and position of each) are %s, not %s" % (nm, g, w))
            if g != w and nm == "column blocks":
                raise Wrong("%s (size and position of each) are %s, not %s" % (nm, g, w))

    def crs_bufs(n=BIG):
        return [array(nm, n, "uninit") for nm in ("size", "rows", "cols", "values", "rb", "cb")]

    def obligation(key, loc, fn):
        def go():
            ip, judge = fn()
            for _ in range(2):
                point.clear()
                try:
                    judge(env())
                except Wrong as e:
                    C.violation(key, loc, str(e))
                    return
            C.passed(key)
        guarded(C, key, go)

    L = lambda cls, name: loc_of(F, "ceres::internal::" + cls, name)
    OPN = ["RightMultiplyAndAccumulate", "LeftMultiplyAndAccumulate", "SquaredColumnNorm", "ScaleColumns", "SetZero"]

    # structures ------------------------------------------------------------
    def entries(rows, cols, density, dup=False):
        e = [(i, j) for i in range(rows) for j in range(cols) if r.r.random() < density]
        r.r.shuffle(e)
        if dup and e:
            e += [e[0], e[len(e) // 2]]
        return e
    shapes = [(1, 1, 1.0), (3, 2, .6), (2, 4, .6), (4, 4, .4), (3, 3, 1.0), (3, 4, 0.0)] + ([(7, 5, .5), (5, 9, .3)] if THOROUGH else [])
    tmats = []
    for a, b, d in shapes:
        e = entries(a, b, d)
        tmats.append((e, Mat(a, b, [(i, j, "v%d" % k) for k, (i, j) in enumerate(e)])))

    def crs_ints(mat):
        e = sorted(mat.ent)
        return [mat.rows, mat.cols, len(e)] + [sum(1 for q in e if q[0] < i) for i in range(mat.rows + 1)] + [q[1] for q in e]

    def crs_of(mat, base="v"):
        e = sorted((a, b) for a, b, _ in mat.ent)
        return Mat(mat.rows, mat.cols, [(a, b, "%s%d" % (base, k)) for k, (a, b) in enumerate(e)])

    # triplets and compressed rows: linear operations --------------------------
    for e_, mat in tmats:
        for op in range(5):
            for threads in (0, 1, 3):
                if threads == 3 and (mat.rows, mat.cols) not in ((4, 4), (3, 2)):
                    continue

                def go(e_=e_, mat=mat, op=op, threads=threads):
                    x, y, size, out = bufs(mat)
                    ip = interp()
                    ip.call(W["TripletOp"], [ints("s", triplet(mat.rows, mat.cols, e_, len(e_) + 1)), array("v", len(e_) + 1), const(op), const(threads), x, y, size, out])
                    return ip, lambda e: linear(e, op, mat, y, size, out, len(mat.ent), 0)
                obligation("triplet %dx%d with %d entries, %d threads: %s" % (mat.rows, mat.cols, len(e_), threads, OPS[op]), L("TripletSparseMatrix", OPN[op]), go)
            cm = crs_of(mat)
            for threads in (0, 1, 2, 5):
                if threads > 1 and op == 1:
                    continue

                def go(mat=cm, op=op, threads=threads):
                    x, y, size, out = bufs(mat)
                    ip = interp()
                    ip.call(W["CrsOp"], [ints("s", crs_ints(mat)), array("v", len(mat.ent) + 1), const(0), const(op), const(threads), x, y, size, out])
                    return ip, lambda e: linear(e, op, mat, y, size, out, len(mat.ent))
                obligation("compressed rows %dx%d with %d entries, %d threads: %s" % (mat.rows, mat.cols, len(e_), threads, OPS[op]), L("CompressedRowSparseMatrix", OPN[op]), go)

    # symmetric storage ---------------------------------------------------------
    for typ, nm in ((1, "lower"), (2, "upper")):
        for n, blocked in ((1, None), (3, None), (4, [1, 3]), (5, [2, 1, 2])) + (((8, [3, 2, 3]),) if THOROUGH else ()):
            bl = []
            for b in blocked or [1] * n:
                bl += [len(bl) and bl[-1] + 1 or 0] * b if False else [max(bl) + 1 if bl else 0] * b
            keep = {(a, b): r.r.random() < .7 or a == b for a in range(max(bl) + 1) for b in range(max(bl) + 1)}
            # whole blocks are stored: the entries of a diagonal block on the wrong side of the diagonal are there, and ignored
            st = [(i, j) for i in range(n) for j in range(n) if keep[bl[i], bl[j]] and (bl[i] <= bl[j] if typ == 2 else bl[i] >= bl[j])]
            own = lambda i, j: i <= j if typ == 2 else i >= j
            stored = Mat(n, n, [(i, j, "v%d" % k) for k, (i, j) in enumerate(st)])
            full = Mat(n, n, [q for i, j, k in stored.ent if own(i, j) for q in ([(i, j, k), (j, i, k)] if i != j else [(i, j, k)])])
            for op in range(3):
                for threads in (0, 3):
                    def go(typ=typ, n=n, op=op, threads=threads, stored=stored, full=full):
                        x, y, size, out = bufs(full)
                        ip = interp()
                        ip.call(W["CrsOp"], [ints("s", crs_ints(stored)), array("v", len(stored.ent) + 1), const(typ), const(op), const(threads), x, y, size, out])

                        def judge(e):
                            d = full.dense(look)
                            for i in range(n):
                                w = val("y%d" % i) + sum(d[i][j] * val("x%d" % j) for j in range(n)) if op < 2 else sum(d[j][i] ** 2 for j in range(n))
                                if not tm.close(num(e, y.reg.cells[i], "result"), w):
                                    raise Wrong("element %d of the result is %s, not %s" % (i, fmt(num(e, y.reg.cells[i], "")), fmt(w)))
                        return ip, judge
                    obligation("compressed rows, %s triangle of %dx%d %s, %d threads: %s" % (nm, n, n, blocked or "", threads, OPS[op]), L("CompressedRowSparseMatrix", OPN[op]), go)

            def tr(typ=typ, n=n, stored=stored):
                B = crs_bufs()
                ip = interp()
                ip.call(W["CrsChange"], [ints("s", crs_ints(stored)), array("v", len(stored.ent) + 1), const(typ), ints("rb", []), ZERO, ints("cb", []), ZERO, const(1), ZERO, ints("s2", []), array("w", 1), ints("rb2", []), ZERO] + B)
                return ip, lambda e: check_crs(e, Mat(n, n, [(j, i, k) for i, j, k in stored.ent]), *B[:4], storage=3 - typ)
            obligation("transpose of the %s triangle of %dx%d %s" % (nm, n, n, blocked or ""), L("CompressedRowSparseMatrix", "Transpose"), tr)

    # dense --------------------------------------------------------------------
    for a, b in ((1, 1), (3, 2), (2, 4)):
        mat = Mat(a, b, [(i, j, "v%d" % (i * b + j)) for i in range(a) for j in range(b)])
        for op in range(5):
            for threads in (0, 2):
                def go(mat=mat, op=op, threads=threads):
                    x, y, size, out = bufs(mat)
                    ip = interp()
                    ip.call(W["DenseOp"], [const(mat.rows), const(mat.cols), array("v", len(mat.ent)), const(op), const(threads), x, y, size, out])
                    return ip, lambda e: linear(e, op, mat, y, size, out, len(mat.ent))
                obligation("dense %dx%d, %d threads: %s" % (a, b, threads, OPS[op]), L("DenseSparseMatrix", OPN[op]), go)

    # triplets: changes -----------------------------------------------------------
    def tchange(key, what, m1, m2, a, b, want, op, name, valid=None, spare=1, spare2=0, nnz=None):
        def go():
            x, y, size, out = bufs(want)
            ip = interp()
            ip.call(W["TripletChange"], [ints("s", triplet(m1.rows, m1.cols, [q[:2] for q in m1.ent], len(m1.ent) + spare)), array("v", max(1, len(m1.ent), a if what == 6 else 0)), const(what),
                                         ints("s2", triplet(m2.rows, m2.cols, [q[:2] for q in m2.ent], len(m2.ent) + spare2)) if m2 else ints("s2", [0, 0, 0, 0]), array("w", max(1, len(m2.ent) if m2 else 0)), const(a), const(b), const(op), x, y, size, out])

            def judge(e):
                linear(e, op, want, y, size, out, nnz if nnz is not None else len(want.ent) if op != 4 else 0)
                if what not in (7,) and num(e, size.reg.cells[5], "validity") != 1:
                    raise Wrong("the matrix is not valid")
            return ip, judge
        obligation(key + ": " + OPS[op], L("TripletSparseMatrix", name), go)

    def other(m, rows, cols, base="w", density=.5):
        e = entries(rows, cols, density)
        return Mat(rows, cols, [(i, j, "%s%d" % (base, k)) for k, (i, j) in enumerate(e)])
    for e_, mat in tmats:
        R, S = mat.rows, mat.cols
        for op in (0, 1, 2, 3) if R * S > 1 else (0,):
            for a, b in ((R, S), (R + 2, S + 1), (R - 1, S), (R, S - 1), (R - 1, S + 1), (R + 1, S - 1), (1, 1)):
                if a < 1 or b < 1 or (op and (a, b) not in ((R - 1, S + 1), (R, S - 1))):
                    continue
                tchange("triplet %dx%d resized to %dx%d" % (R, S, a, b), 0, mat, None, a, b, Mat(a, b, [q for q in mat.ent if q[0] < a and q[1] < b]), op, "Resize")
            m2 = other(mat, 2, S)
            for spare in (0, 9):
                tchange("triplet %dx%d, %d spare, with rows appended" % (R, S, spare), 1, mat, m2, 0, 0, below(mat, m2), op, "AppendRows", spare=spare, spare2=2)
            m3 = other(mat, R, 3)
            for spare in (0, 9):
                tchange("triplet %dx%d, %d spare, with columns appended" % (R, S, spare), 2, mat, m3, 0, 0, Mat(R, S + 3, mat.ent + [(i, j + S, k) for i, j, k in m3.ent]), op, "AppendCols", spare=spare, spare2=2)
        for a in (len(mat.ent), len(mat.ent) + 1, len(mat.ent) + 5):
            tchange("triplet %dx%d with room for %d reserved" % (R, S, a), 3, mat, None, a, 0, mat, 0, "Reserve")
        m4 = other(mat, S, R)
        for spare2 in (0, 3):
            tchange("triplet %dx%d assigned over, %d spare" % (R, S, spare2), 4, mat, m4, 0, 0, m4, 1, "operator=", spare2=spare2)
        tchange("copy of triplet %dx%d" % (R, S), 5, mat, None, 0, 0, mat, 1, "CopyData")
        tchange("dense copy of triplet %dx%d" % (R, S), 7, mat, None, 0, 0, mat, 0, "ToDenseMatrix", nnz=R * S)
        tchange("triplet %dx%d from vectors" % (R, S), 8, mat, None, 0, 0, mat, 1, "AllocateMemory")
        m5 = other(mat, 1, S, density=.8)
        tchange("triplet %dx%d zeroed, then rows appended" % (R, S), 9, mat, m5, 0, 0, Mat(R + 1, S, [(i + R, j, k) for i, j, k in m5.ent]), 0, "SetZero")
    for n in (1, 4):
        tchange("sparse diagonal of %d" % n, 6, Mat(1, 1, []), None, n, 0, Mat(n, n, [(i, i, "v%d" % i) for i in range(n)]), 0, "CreateSparseDiagonalMatrix")
    # repeated entries are summed up
    for R, S in ((2, 2), (3, 4)):
        e = entries(R, S, .8, dup=True)
        mat = Mat(R, S, [(i, j, "v%d" % k) for k, (i, j) in enumerate(e)])
        for op in (0, 1, 3):
            tchange("triplet %dx%d with repeated entries" % (R, S), 3, mat, None, len(e) + 2, 0, mat, op, "ToDenseMatrix")
        tchange("dense copy of triplet %dx%d with repeated entries" % (R, S), 7, mat, None, 0, 0, mat, 1, "ToDenseMatrix", nnz=R * S)

    # conversions from triplets -----------------------------------------------------
    for e_, mat in tmats:
        trip = lambda e_=e_, mat=mat: [ints("s", triplet(mat.rows, mat.cols, e_, len(e_) + 2)), array("v", len(e_) + 1)]
        nm = "triplet %dx%d with %d entries" % (mat.rows, mat.cols, len(e_))

        def go(trip=trip, mat=mat):
            B = crs_bufs()
            ip = interp()
            ip.call(W["TripletToCrs"], trip() + B[:4])
            return ip, lambda e: check_crs(e, mat, *B[:4])
        obligation(nm + " to CRSMatrix", L("TripletSparseMatrix", "ToCRSMatrix"), go)
        for t in (0, 1):
            def go(trip=trip, mat=mat, t=t):
                B = crs_bufs()
                ip = interp()
                ip.call(W["CrsFromTriplet"], trip() + [const(t)] + B)
                m = mat if not t else Mat(mat.cols, mat.rows, [(j, i, k) for i, j, k in mat.ent])
                return ip, lambda e: check_crs(e, m, *B[:4], storage=0)
            obligation(nm + " to compressed rows" + (", transposed" if t else ""), L("CompressedRowSparseMatrix", "FromTripletSparseMatrix"), go)

    # compressed rows: changes ---------------------------------------------------------
    for rblk, cblk in (([1], [1]), ([2, 1, 2], [1, 2]), ([1, 3], [2, 2]), ([1, 1, 2, 1], [3])):
        R, S = sum(rblk), sum(cblk)
        mat = crs_of(Mat(R, S, [(i, j, None) for i, j in entries(R, S, .6)]))
        for blocks in (True, False):
            rb, cb = (rblk, cblk) if blocks else ([], [])
            add_blk = [2, 1]
            addm = crs_of(Mat(3, S, [(i, j, None) for i, j in entries(3, S, .6)]), "w")
            empty = Mat(3, S, [])
            hs = [1, 1]
            for what, a, m2, rb2 in [(0, 0, empty, []), (1, 0, empty, []), (3, 0, addm, add_blk), (3, 0, empty, add_blk), (4, 3, addm, add_blk), (4, 1, addm, add_blk), (5, rblk[-1], addm, add_blk)] + [(2, sum(rblk[k:]), empty, []) for k in range(1, len(rblk) + 1)]:
                if what == 5 and len(rblk) == 1:
                    continue
                if not blocks:
                    rb2 = []
                if what == 0:
                    w, wr, wc = mat, rb, cb
                elif what == 1:
                    w, wr, wc = Mat(S, R, [(j, i, k) for i, j, k in mat.ent]), cb, rb
                elif what == 2:
                    w, wr, wc = Mat(R - a, S, [q for q in mat.ent if q[0] < R - a]), [b for k, b in enumerate(rb) if sum(rb[:k]) < R - a], cb
                elif what == 3:
                    w, wr, wc = below(mat, m2), rb + rb2, cb
                elif what == 4:
                    w = below(mat, m2)
                    w, wr, wc = Mat(R + 3 - a, S, [q for q in w.ent if q[0] < R + 3 - a]), rb + (rb2 if a == 1 and False else [] if a == 3 else rb2[:1]), cb
                else:
                    w = below(Mat(R - a, S, [q for q in mat.ent if q[0] < R - a]), m2)
                    wr, wc = (rb[:-1] + rb2) if rb else [], cb
                if not blocks:
                    wr, wc = [], []

                def go(what=what, a=a, m2=m2, rb2=rb2, w=w, wr=wr, wc=wc, mat=mat, rb=rb, cb=cb):
                    B = crs_bufs()
                    ip = interp()
                    ip.call(W["CrsChange"], [ints("s", crs_ints(mat)), array("v", len(mat.ent) + 1), ZERO, ints("rb", rb), const(len(rb)), ints("cb", cb), const(len(cb)), const(what), const(a),
                                             ints("s2", crs_ints(m2)), array("w", len(m2.ent) + 1), ints("rb2", rb2), const(len(rb2))] + B)
                    return ip, lambda e: check_crs(e, w, *B, rblk=wr, cblk=wc, storage=0)
                nm = ["as it is", "transposed", "rows deleted", "rows appended", "rows appended, then deleted", "rows deleted, then appended"][what]
                fnm = ["ToCRSMatrix", "Transpose", "DeleteRows", "AppendRows", "DeleteRows", "AppendRows"][what]
                obligation("compressed rows %s by %s, %s block structure, %s (%d, %d entries)" % (rblk, cblk, "with" if blocks else "without", nm, a, len(m2.ent)), L("CompressedRowSparseMatrix", fnm), go)
    for n in (0, 1, 4):
        def go(n=n):
            B = crs_bufs()
            ip = interp()
            ip.call(W["CrsDiagonal"], [array("v", n + 1), const(n)] + B)
            return ip, lambda e: check_crs(e, Mat(n, n, [(i, i, "v%d" % i) for i in range(n)]), *B[:4], storage=0)
        obligation("compressed rows: diagonal of %d" % n, L("CompressedRowSparseMatrix", "CompressedRowSparseMatrix"), go)
    for bl in ([1], [2], [1, 3, 2], [3, 1]):
        for null in (False, True):
            def go(bl=bl, null=null):
                B = crs_bufs()
                ip = interp()
                ip.call(W["CrsBlockDiagonal"], [NULL if null else array("v", sum(bl)), ints("bl", bl), const(len(bl))] + B)
                at, ent = 0, []
                for b in bl:
                    ent += [(at + i, at + j, "v%d" % (at + i) if i == j and not null else None) for i in range(b) for j in range(b)]
                    at += b
                ent = [q if q[2] is not None else (q[0], q[1], None) for q in ent]
                return ip, lambda e: check_crs(e, Mat(at, at, ent), *B, rblk=bl, cblk=bl, storage=0)
            obligation("compressed rows: block diagonal %s%s" % (bl, " without values" if null else ""), L("CompressedRowSparseMatrix", "CreateBlockDiagonalMatrix"), go)

    # block sparse -----------------------------------------------------------------------
    def some(rs, cs, density, order="row", cover=False):
        c = {i: [j for j in range(len(cs)) if r.r.random() < density] for i in range(len(rs))}
        if cover:
            c[0] = list(range(len(cs)))
        return Blk(rs, cs, c, order)
    bms = [some([2], [3], 1), some([1, 2], [2, 1, 3], .7), some([2, 1, 3], [1, 2], .7), Blk([2, 1], [1, 2, 1], {0: [2], 1: [0, 2]}), Blk([2, 1, 2], [2, 3], {1: [0, 1], 2: [1]}), Blk([1, 2], [2, 1], {}),
           some([1, 2, 1, 2, 3, 1], [2, 1, 1, 2, 1, 3, 1], .4), some([2, 1, 2, 1], [2, 1, 3], .8, "e first"), some([1, 1, 1], [4, 1, 5, 2], .7)]
    if THOROUGH:
        bms += [some([r.r.randint(1, 4) for _ in range(8)], [r.r.randint(1, 5) for _ in range(9)], d, o) for d in (.2, .5, .9) for o in ("row", "e first")]
    desc = lambda b: "%s by %s, cells %s%s" % (b.rs, b.cs, {i: j for i, j in b.cells.items() if j}, "" if [b.pos[q] for q in b.list] == sorted(b.pos.values()) else ", first column block first")
    for b in bms:
        mat = b.mat()
        for op in range(5):
            for threads, sched in ((0, "later"), (1, "later"), (2, "at once"), (3, "later")):
                def go(b=b, mat=mat, op=op, threads=threads, sched=sched):
                    x, y, size, out = bufs(mat)
                    ip = interp(sched)
                    ip.call(W["BlockOp"], [ints("s", b.ints()), array("v", b.nnz + 1), const(op), const(threads), x, y, size, out])
                    return ip, lambda e: linear(e, op, mat, y, size, out, b.nnz)
                obligation("block sparse %s, %d threads: %s" % (desc(b), threads, OPS[op]), L("BlockSparseMatrix", OPN[op]), go)

    def bchange(b, what, b2, n, want, nm, fnm, ops=((0, 0), (1, 0), (1, 3), (2, 3), (3, 3), (2, 0))):
        """want: the matrix after the change."""
        first = [ints("s", b.ints() if what != 5 else b.rs), array("v", max(1, b.nnz)), const(what), ints("s2", b2.ints() if b2 else [0]), array("w", b2.nnz + 1 if b2 else 1), const(n)]
        fresh = lambda: [ints("s", b.ints() if what != 5 else b.rs), array("v", max(1, b.nnz)), const(what), ints("s2", b2.ints() if b2 else [0]), array("w", b2.nnz + 1 if b2 else 1), const(n)]
        for op, threads in ops:
            def go(op=op, threads=threads):
                x, y, size, out = bufs(want)
                ip = interp()
                ip.call(W["BlockChange"], fresh() + [const(op), const(threads), x, y, size, out])
                return ip, lambda e: linear(e, op, want, y, size, out, len(want.ent))
            obligation("block sparse %s, %s, %d threads: %s" % (desc(b) if what != 5 else b.rs, nm, threads, OPS[op]), L("BlockSparseMatrix", fnm), go)
        for t in (0, 1):
            for upd in (0, 1):
                def go(t=t, upd=upd):
                    B = crs_bufs()
                    ip = interp()
                    ip.call(W["BlockToCrs"], fresh() + [const(t), array("u", len(want.ent) + 1) if upd else NULL] + B)
                    w = want
                    if upd:
                        w = Mat(want.rows, want.cols, [(i, j, "u%d" % want.at[i, j]) for i, j, k in want.ent])
                    if t:
                        w = Mat(w.cols, w.rows, [(j, i, k) for i, j, k in w.ent])
                    rb, cb = (want.rblk, want.cblk) if not t else (want.cblk, want.rblk)
                    return ip, lambda e: check_crs(e, w, *B, rblk=rb, cblk=cb, storage=0)
                obligation("block sparse %s, %s to compressed rows%s%s" % (desc(b) if what != 5 else b.rs, nm, ", transposed" if t else "", ", new values" if upd else ""),
                           L("BlockSparseMatrix", "ToCompressedRowSparseMatrix" + ("Transpose" if t else "")), go)
        for op in (0, 1):
            def go(op=op):
                x, y, size, out = bufs(want)
                ip = interp()
                ip.call(W["BlockToTriplet"], fresh() + [const(op), x, y, size, out])

                def judge(e):
                    linear(e, op, want, y, size, out, len(want.ent))
                    if num(e, size.reg.cells[5], "validity") != 1:
                        raise Wrong("the triplets are not valid")
                return ip, judge
            obligation("block sparse %s, %s to triplets: %s" % (desc(b) if what != 5 else b.rs, nm, OPS[op]), L("BlockSparseMatrix", "ToTripletSparseMatrix"), go)

    def tagged(mat, rblk, cblk, at):
        mat.rblk, mat.cblk, mat.at = rblk, cblk, at
        return mat

    def posn(m):
        # position of every entry in the value array
        return m
    for b in bms:
        m = b.mat()
        at = {(i, j): int(k[1:]) for i, j, k in m.ent}
        bchange(b, 0, None, 0, tagged(m, b.rs, b.cs, at), "as it is", "ToDenseMatrix", ops=())
    for b in [q for q in bms if "first column" not in desc(q)]:
        b2 = some([1, 2], b.cs, .7)
        m, m2 = b.mat(), b2.mat("w")
        at = {(i, j): int(k[1:]) for i, j, k in m.ent}
        both = below(m, m2)
        at2 = dict(at)
        at2.update({(i + m.rows, j): b.nnz + int(k[1:]) for i, j, k in m2.ent})
        bchange(b, 1, b2, 0, tagged(both, b.rs + b2.rs, b.cs, at2), "rows appended", "AppendRows")
        for n in range(1, len(b.rs)):
            w = b.mat(rows=len(b.rs) - n)
            if n in (1, len(b.rs) - 1):
                bchange(b, 2, None, n, tagged(w, b.rs[:-n], b.cs, at), "%d row blocks deleted" % n, "DeleteRowBlocks", ops=((0, 0), (1, 3), (2, 3)))
        for n in (1, 2):
            keep = m.rows + (b2.rp[1] if n == 1 else 0)
            w = Mat(keep, m.cols, [q for q in both.ent if q[0] < keep])
            bchange(b, 3, b2, n, tagged(w, b.rs + b2.rs[:2 - n], b.cs, at2), "rows appended and %d deleted" % n, "DeleteRowBlocks", ops=((0, 0), (1, 3), (3, 3)))
        if len(b.rs) > 1:
            low = b.mat(rows=len(b.rs) - 1)
            w = below(low, m2)
            at3 = {k: v for k, v in at.items() if k[0] < low.rows}
            at3.update({(i + low.rows, j): len(low.ent) + int(k[1:]) for i, j, k in m2.ent})
            bchange(b, 4, b2, 1, tagged(w, b.rs[:-1] + b2.rs, b.cs, at3), "1 row block deleted and rows appended", "AppendRows", ops=((0, 0), (1, 3), (2, 3)))
    for bl in ([1], [3], [2, 1, 3]):
        b = Blk(bl, bl, {i: [i] for i in range(len(bl))})
        ent = [(b.rp[i] + a, b.rp[i] + c, "v%d" % (b.rp[i] + a) if a == c else None) for i in range(len(bl)) for a in range(bl[i]) for c in range(bl[i])]
        at = {(b.rp[i] + a, b.rp[i] + c): b.pos[i, i] + a * bl[i] + c for i in range(len(bl)) for a in range(bl[i]) for c in range(bl[i])}
        bchange(b, 5, None, len(bl), tagged(Mat(sum(bl), sum(bl), ent), bl, bl, at), "diagonal", "CreateDiagonalMatrix")
    for bl in ([2], [1, 3, 2], [4, 1, 1, 2]):
        for n in range(len(bl) + 1):
            def go(bl=bl, n=n):
                out, blk = array("out", 2, "uninit"), array("blk", 20, "uninit")
                ip = interp()
                ip.call(W["BlockHelpers"], [ints("bl", bl), const(len(bl)), const(n), out, blk])

                def judge(e):
                    g = [num(e, out.reg.cells[i], "result") for i in (0, 1)] + [num(e, blk.reg.cells[i], "result") for i in range(1 + 2 * n)]
                    w = [sum(bl), sum(q * q for q in bl), n]
                    at = 0
                    for q in bl[len(bl) - n:]:
                        w += [q, at]
                        at += q
                    if [int(q) for q in g] != w:
                        raise Wrong("entries, squared sizes and the last %d of blocks %s are %s, not %s" % (n, bl, [int(q) for q in g], w))
                return ip, judge
            obligation("helpers on blocks %s, last %d" % (bl, n), L("", "SumSquaredSizes"), go)
    C.count("structures", len(tmats) + len(bms))
    C.assume = ["real arithmetic", "whole blocks: rows are deleted at block boundaries", "matrices being appended keep their values in row order", "one schedule per thread count; races are not decided here"]
    return C
