"""C33: elimination orderings."""
import itertools, os, random, sys
from alg import *
import facts
from check import Check
from props import c11, c31
from props.c25 import ints
from props.c27 import Wrong
RULE = ("interpretation of the orderings over programs of every structure in bounds: permutations, independence of the groups eliminated, order of the residual blocks, indices and offsets, refusals == a model of sets and graphs; "
        "OrderedGroups over histories of operations")
MORE = ["parameter_block_ordering.cc", "reorder_program.cc", "residual_block.cc", "event_logger.cc", "array_utils.cc"]


def run():
    sys.setrecursionlimit(200000)
    C = Check("C33", RULE, floor=230)
    F = facts.load([facts.witness("ordering.cc")] + [facts.REPO + "/internal/ceres/" + f for f in dict.fromkeys(c31.FILES + c31.MORE + MORE) if os.path.exists(facts.REPO + "/internal/ceres/" + f)])
    W = {f.n: f for f in F.fns.values() if f.q.startswith("w::") and f.q.count("::") == 1}
    E = lambda n, k: dict((q["n"], q["v"]) for q in F.enums["ceres::" + n]["vals"])[k]

    def ob(key, loc, f):
        def go():
            try:
                f()
            except (Wrong, UninitRead) as ex:
                C.violation(key, loc, str(ex))
                return
            C.passed(key)
        guarded(C, key, go)

    def interp():
        ip = Interp(F, 12000000)
        c11.hooks(ip, c31.NAMES)
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(8)
        for n in ("StrAppend", "StrAppendFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: None
        for n in ("StrCat", "StrFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: Opaque("string")
        ip.decide = lambda q: env.ev(q)
        return ip

    env = tm.Env({}, {"A": lambda *a: 1, "Ok": lambda *a: 1, "OkPJ": lambda *a: 1, "PJ": lambda *a: 1, "Rho": lambda *a: 1, "Pl": lambda *a: 1})

    class Look(dict):
        def __missing__(self, k):
            return 1
    env.v = Look()

    def call(name, args, refuses=False):
        ip = interp()
        try:
            v = ip.call(W[name], args)
        except (OutOfRange, Unsupported, UninitRead) as ex:
            if any(a is not FALSE and env.ev(a) for a in ip.aborts):
                if refuses:
                    return None
                raise Wrong("a CHECK fails")
            if isinstance(ex, OutOfRange):
                raise Wrong(ex.msg)
            raise
        if any(a is not FALSE and env.ev(a) for a in ip.aborts):
            if refuses:
                return None
            raise Wrong("a CHECK fails")
        C.count("calls")
        return None if v is None else int(env.ev(v)) if isinstance(v, T) else v

    class Out:
        def __init__(self, n=400):
            self.a, self.i = array("out", n, [UNINIT] * n), 0

        def __call__(self):
            v = self.a.reg.cells[self.i].v
            self.i += 1
            if not isinstance(v, T):
                raise Wrong("entry %d of the result is unwritten" % (self.i - 1))
            return int(env.ev(v))

        def rest(self):
            out = []
            while self.i < len(self.a.reg.cells) and isinstance(self.a.reg.cells[self.i].v, T):
                out.append(self())
            return out

    u = lambda: array("u", 48, [tm.sym("u%d" % i) for i in range(48)])

    def spec(case):
        blocks, order, res = case
        out = [len(blocks)]
        for b in blocks:
            out += list(b)
        out += [len(order)] + list(order) + [len(res)]
        for bs in res:
            out += [1 + len(bs) % 2, 0, len(bs)] + list(bs)
        return ints("s", out)

    tan = lambda b: b[0] if b[1] < 0 else b[1]
    still = lambda b: b[2] or tan(b) == 0

    def any_program(q, constants=False, all_used=True):
        n = q.randrange(2, 8)
        blocks = []
        for _ in range(n):
            size = q.randrange(1, 4)
            blocks.append((size, q.choice([-1, -1, max(1, size - 1)]), 1 if constants and q.random() < 0.3 else 0))
        order = list(range(n))
        q.shuffle(order)
        res = [sorted(q.sample(range(n), q.randrange(1, min(3, n) + 1)), key=lambda v: q.random()) for _ in range(q.randrange(1, 9))]
        if all_used:
            res += [[i] for i in range(n) if not any(i in r for r in res)]
            q.shuffle(res)
        return blocks, order, res

    def joined(case):
        """pairs of varying blocks a residual block depends on"""
        blocks, _, res = case
        return {(a, b) for r in res for a in r for b in r if a != b and not still(blocks[a]) and not still(blocks[b])}

    def order_of(o, case):
        n = o()
        if n != len(case[1]):
            raise Wrong("%d parameter blocks are left of %d" % (n, len(case[1])))
        bs = [[o() for _ in range(4)] for _ in range(n)]
        m = o()
        rs = [o() for _ in range(m)]
        if sorted(b[0] for b in bs) != sorted(case[1]):
            raise Wrong("the parameter blocks are %s, not a permutation of %s" % ([b[0] for b in bs], case[1]))
        if sorted(rs) != list(range(len(case[2]))):
            raise Wrong("the residual blocks are %s, not a permutation" % rs)
        return bs, rs

    N = 120 if THOROUGH else 24
    L = lambda n: loc_of(F, "ceres::internal", n)

    def schur(i):
        q = random.Random("c33 schur %d" % i)
        case = any_program(q, True, q.random() < 0.7)
        blocks, order, _ = case
        edge = joined(case)
        for stable in (True, False):
            o = Out()
            k = call("Schur", [u(), spec(case), const(stable), o.a])
            got = [o() for _ in range(o())]
            if sorted(got) != sorted(order):
                raise Wrong("the ordering is %s, not a permutation of %s" % (got, order))
            vary = [b for b in order if not still(blocks[b])]
            if sorted(got[:len(vary)]) != sorted(vary):
                raise Wrong("constant blocks come before varying ones")
            first = got[:k]
            if k > len(vary) or any((a, b) in edge for a in first for b in first):
                raise Wrong("the first %d blocks of %s are not independent" % (k, got))
            for b in vary:
                if b not in first and not any((a, b) in edge for a in first):
                    raise Wrong("block %d could be eliminated too" % b)
            if stable:
                for vs in (got[k:len(vary)], first):
                    deg = lambda v: sum(1 for a, b in edge if a == v)
                    if vs != sorted(vs, key=lambda v: (deg(v), order.index(v))):
                        raise Wrong("blocks of the same degree change their order")

    def recursive(i):
        q = random.Random("c33 recursive %d" % i)
        case = any_program(q)
        edge = joined(case)
        o = Out()
        call("Recursive", [u(), spec(case), o.a])
        n, g = o(), o()
        of = [o() for _ in case[0]]
        if n != len(case[0]) or min(of) < 0:
            raise Wrong("%d of %d blocks are in a group" % (n, len(case[0])))
        if sorted(set(of)) != list(range(g)):
            raise Wrong("the groups are %s" % sorted(set(of)))
        if any(of[a] == of[b] for a, b in edge):
            raise Wrong("two blocks of a residual block are in the same group, %s" % of)
        for b in range(len(of)):               # each group is as large as it can be
            for h in range(of[b]):
                if not any(of[a] == h and (a, b) in edge for a in range(len(of))):
                    raise Wrong("block %d could be in group %d" % (b, h))
        m = o()
        sizes = [o() for _ in range(m)]
        if sizes != [of.count(h) for h in range(g)]:
            raise Wrong("the sizes of the groups are %s, not those of %s" % (sizes, of))

    def groups_of(q, case, holes=False):
        ids = sorted(q.sample(range(9), q.randrange(1, 4)))
        return [q.choice(ids) for _ in case[0]], ids

    def apply(i):
        q = random.Random("c33 apply %d" % i)
        case = any_program(q)
        g, _ = groups_of(q, case)
        stranger = -1
        if i % 4 == 3:                          # a block of the problem is missing, or one it does not have is there, or both
            k = q.randrange(3)
            if k != 1:
                g[q.randrange(len(g))] = -1
            if k != 0:
                stranger = q.randrange(3)
        o = Out()
        ok = call("Apply", [u(), spec(case), ints("g", g), const(stranger), o.a])
        bad = -1 in g or stranger >= 0
        if ok != (0 if bad else 1):
            raise Wrong("an ordering %s is %s" % ("of other blocks" if bad else "of the blocks of the problem", "accepted" if ok else "refused"))
        if not bad:
            bs, rs = order_of(o, case)
            gs = [g[b[0]] for b in bs]
            if gs != sorted(gs):
                raise Wrong("the groups of the blocks are %s" % gs)
            if [b[0] for b in bs] != sorted(case[1], key=lambda b: (g[b], case[1].index(b))):
                raise Wrong("blocks of the same group change their order")

    def check_rows(case, first, rs, key=None):
        """residual blocks in the order of the block they eliminate"""
        place = lambda r: min([first.index(b) for b in case[2][r] if b in first] + [len(first)])
        ps = [place(r) for r in rs]
        if ps != sorted(ps):
            raise Wrong("the residual blocks are in the order %s of the blocks to eliminate" % ps)

    def lexicographic(i):
        q = random.Random("c33 rows %d" % i)
        case = any_program(q)
        order = case[1]
        edge = joined(case)
        k = 1
        while k < len(order) and q.random() < 0.8 and not any((order[k], b) in edge for b in order[:k]):
            k += 1
        o = Out()
        ok = call("Lexicographic", [u(), spec(case), const(k), o.a])
        if ok != 1:
            raise Wrong("fails")
        bs, rs = order_of(o, case)
        if [b[0] for b in bs] != order:
            raise Wrong("the order of the parameter blocks changes")
        check_rows(case, order[:k], rs)

    def reorder(i, type, lib):
        q = random.Random("c33 reorder %d" % i)
        case = any_program(q)
        blocks, order, _ = case
        edge = joined(case)
        g, ids = groups_of(q, case)
        if i % 3 == 0:
            g = [0] * len(blocks)
        elif i % 3 == 1:                        # an independent first group
            first = []
            for b in sorted(order, key=lambda v: q.random()):
                if not any((a, b) in edge for a in first) and (not first or q.random() < 0.8):
                    first.append(b)
            g = [0 if b in first else 1 + q.randrange(3) for b in range(len(blocks))]
        stranger = 3 if i % 10 == 9 else -1
        o = Out()
        ok = call("Reorder", [u(), spec(case), const(type), const(lib), ints("g", g), const(stranger), o.a])
        low = min(g)
        one = len(set(g) | ({stranger} if stranger >= 0 else set())) == 1
        bad = stranger >= 0 or not one and any(g[a] == low and g[b] == low for a, b in edge)
        if ok != (0 if bad else 1):
            raise Wrong("an ordering whose first group is %sindependent is %s" % ("not " if bad else "", "accepted" if ok else "refused") if stranger < 0 else "an ordering of another number of blocks is accepted")
        if bad:
            return
        bs, rs = order_of(o, case)
        of = [o() for _ in blocks]
        n = o()
        if n != len(blocks) or min(of) < 0:
            raise Wrong("the ordering has %d blocks afterwards, not %d" % (n, len(blocks)))
        st = dt = 0
        for j, (b, index, so, do) in enumerate(bs):
            if (index, so, do) != (j, st, dt):
                raise Wrong("index and offsets of block %d are %d, %d, %d, not %d, %d, %d" % (b, index, so, do, j, st, dt))
            st += blocks[b][0]
            dt += tan(blocks[b])
        if not one and of != g:
            raise Wrong("the groups of the user change from %s to %s" % (g, of))
        k = of.count(min(of))
        first = [b[0] for b in bs[:k]]
        if any(of[b] != min(of) for b in first) or any((a, b) in edge for a in first for b in first):
            raise Wrong("the first %d blocks are not the first group, or not independent" % k)
        gs = [of[b[0]] for b in bs]
        if gs != sorted(gs):
            raise Wrong("the groups of the blocks are in the order %s" % gs)
        if one:
            for b in range(len(blocks)):
                if b not in first and not any((a, b) in edge for a in first):
                    raise Wrong("block %d could be eliminated too" % b)
        check_rows(case, first, rs)

    def partition(i):
        q = random.Random("c33 partition %d" % i)
        case = any_program(q)
        bottom = [q.randrange(2) for _ in case[2]]
        o = Out()
        k = call("Partition", [u(), spec(case), ints("bottom", bottom), o.a])
        _, rs = order_of(o, case)
        if k != bottom.count(0) or any(bottom[r] != (j >= k) for j, r in enumerate(rs)):
            raise Wrong("the rows at the bottom start at %d, in the order %s" % (k, [bottom[r] for r in rs]))

    def independent(i):
        q = random.Random("c33 independent %d" % i)
        case = any_program(q)
        edge = {(a, b) for r in case[2] for a in r for b in r if a != b}
        for p in (0.2, 0.5):
            s = [1 if q.random() < p else 0 for _ in case[0]]
            want = not any(s[a] and s[b] for a, b in edge)
            if bool(call("Independent", [u(), spec(case), ints("in", s)])) != want:
                raise Wrong("the set %s is said to be %sindependent" % (s, "not " if want else ""))

    def sparsity(i):
        q = random.Random("c33 sparsity %d" % i)
        blocks, order, res = any_program(q, True)
        if i % 4 == 0:                          # more entries than are reserved at first
            blocks = [(1, -1, 0)] * 14
            order = list(range(14))
            res = [list(range(13)), list(range(14)), [3, 1]]
        start = q.randrange(len(res))
        o = Out()
        call("Sparsity", [u(), spec((blocks, order, res)), const(start), o.a])
        rows, cols, nnz = o(), o(), o()
        got = sorted((o(), o()) for _ in range(nnz))
        want = sorted((order.index(b), c - start) for c in range(start, len(res)) for b in res[c] if not still(blocks[b]))
        if (rows, cols) != (len(order), len(res) - start) or got != want:
            raise Wrong("the %dx%d matrix has the entries %s, not %s" % (rows, cols, got[:8], want[:8]))

    def groups(i):
        q = random.Random("c33 groups %d" % i)
        ops, want, m = [], [], {}
        n = 3 + i % 20
        for _ in range(n):
            reversed_ = any(isinstance(g, tuple) for g in m.values())      # the numbers of the groups are free now, their order is not
            op = q.choice([1, 2, 3, 3] if reversed_ else [0, 0, 0, 0, 1, 2, 3, 3] + [4] * (i % 5 == 0))
            if op == 0:
                e, g = q.randrange(6), q.randrange(-1, 5)
                ops += [0, e, g]
                want.append(0 if g < 0 else 1)
                if g >= 0:
                    m[e] = g
            elif op == 1:
                e = q.randrange(6)
                ops += [1, e]
                want.append(1 if e in m else 0)
                m.pop(e, None)
            elif op == 2:
                v = [q.randrange(6) for _ in range(q.randrange(4))]
                ops += [2, len(v)] + v
                want.append(sum(1 for e in set(v) if e in m))
                for e in v:
                    m.pop(e, None)
            elif op == 3:
                ops.append(3)
                gs = sorted(set(m.values()), reverse=True)
                m = {e: ("r", gs.index(g)) for e, g in m.items()}
            else:
                ops.append(4)
                m = {}
        n_ops = 0
        j = 0
        while j < len(ops):
            j += {0: 3, 1: 2, 3: 1, 4: 1}.get(ops[j], 2 + (ops[j + 1] if j + 1 < len(ops) else 0))
            n_ops += 1
        o = Out()
        call("Groups", [ints("ops", [n_ops] + ops), const(6), const(16), o.a])
        for w in want:
            if o() != w:
                raise Wrong("an operation reports something else than %d" % w)
        if (o(), o()) != (len(m), len(set(m.values()))):
            raise Wrong("the numbers of elements and groups are not %d and %d" % (len(m), len(set(m.values()))))
        of = {}
        for e in range(6):
            member, g = o(), o()
            if member != (e in m) or (g >= 0) != (e in m):
                raise Wrong("element %d is said to be in group %d" % (e, g))
            if member:
                of[e] = g
        reverse = any(isinstance(g, tuple) for g in m.values())
        key = (lambda g: g[1]) if reverse else (lambda g: g)
        for a in m:
            for b in m:
                x, y = key(m[a]), key(m[b])
                if (of[a] < of[b]) != (x < y) or (not reverse and of[a] != m[a]):
                    raise Wrong("elements %d and %d are in groups %d and %d" % (a, b, of[a], of[b]))
        sizes = [o() for _ in range(16)]
        if sizes != [sum(1 for g in of.values() if g == h) for h in range(16)]:
            raise Wrong("the sizes of the groups are %s" % sizes)
        rest = o.rest()
        flat = [min(of.values())] if of else []
        for g in sorted(set(of.values())):
            flat += [g] + sorted(e for e in of if of[e] == g)
        if rest != flat:
            raise Wrong("the groups are %s, not %s" % (rest, flat))

    def forest(i):
        q = random.Random("c33 forest %d" % i)
        n = q.randrange(1, 8)
        edges = [e for e in itertools.combinations(range(n), 2) if q.random() < 0.6]
        w = [Fraction(q.randrange(1, 9), 4) for _ in edges]
        o = Out()
        k = call("Forest", [const(n), ints("edges", [v for e in edges for v in e] or [0]), const(len(edges)), array("w", max(1, len(w)), [const(v) for v in w] or [const(0)]), o.a])
        if k != n:
            raise Wrong("%d of %d vertices are left" % (k, n))
        adj = [[o() for _ in range(n)] for _ in range(n)]
        got = {(a, b) for a in range(n) for b in range(n) if adj[a][b]}
        if any((b, a) not in got for a, b in got) or any(a < b and (a, b) not in edges for a, b in got) or any(sum(r) > 2 for r in adj):
            raise Wrong("the edges %s are not a subgraph of degree two" % sorted(got))
        root = list(range(n))

        def find(v):
            while root[v] != v:
                v = root[v]
            return v
        for a, b in got:
            if a < b:
                if find(a) == find(b):
                    raise Wrong("there is a cycle in %s" % sorted(got))
                root[find(a)] = find(b)
        for (a, b), x in zip(edges, w):
            if (a, b) in got or find(a) != find(b) and sum(adj[a]) < 2 and sum(adj[b]) < 2:
                if (a, b) not in got:
                    raise Wrong("the edge %d-%d could be added" % (a, b))
        for (a, b), x in zip(edges, w):         # an edge left out is not heavier than all that keep it out
            if (a, b) not in got:
                heavy = [y for e, y in zip(edges, w) if e in got and y >= x]
                deg = lambda v: sum(1 for e, y in zip(edges, w) if e in got and y >= x and v in e)
                r2 = list(range(n))

                def f2(v):
                    while r2[v] != v:
                        v = r2[v]
                    return v
                for e, y in zip(edges, w):
                    if e in got and y >= x:
                        r2[f2(e[0])] = f2(e[1])
                if deg(a) < 2 and deg(b) < 2 and f2(a) != f2(b):
                    raise Wrong("the edge %d-%d is left out for lighter ones" % (a, b))

    A = lambda n: loc_of(F, "ceres::internal::Program", n)
    G = loc_of(F, "ceres::OrderedGroups", "AddElementToGroup")
    for i in range(N):
        ob("Schur ordering, program %d" % i, L("ComputeStableSchurOrdering"), lambda i=i: schur(i))
        ob("recursive independent sets, program %d" % i, L("ComputeRecursiveIndependentSetOrdering"), lambda i=i: recursive(i))
        ob("ordering applied, program %d" % i, L("ApplyOrdering"), lambda i=i: apply(i))
        ob("order of the residual blocks, program %d" % i, L("LexicographicallyOrderResidualBlocks"), lambda i=i: lexicographic(i))
        for t, lib in (("DENSE_SCHUR", "NO_SPARSE"), ("ITERATIVE_SCHUR", "EIGEN_SPARSE"), ("SPARSE_SCHUR", "CUDA_SPARSE")):
            ob("reordering for %s, program %d" % (t, i), L("ReorderProgramForSchurTypeLinearSolver"), lambda i=i, t=t, lib=lib: reorder(i, E("LinearSolverType", t), E("SparseLinearAlgebraLibraryType", lib)))
        ob("partition of the residual blocks, program %d" % i, L("ReorderResidualBlocksByPartition"), lambda i=i: partition(i))
        ob("independent sets, program %d" % i, A("IsParameterBlockSetIndependent"), lambda i=i: independent(i))
        ob("block sparsity, program %d" % i, A("CreateJacobianBlockSparsityTranspose"), lambda i=i: sparsity(i))
        ob("ordered groups, history %d" % i, G, lambda i=i: groups(i))
        ob("degree two forest, graph %d" % i, L("Degree2MaximumSpanningForest"), lambda i=i: forest(i))
    return C
