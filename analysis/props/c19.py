"""C19: inverse of positive semidefinite matrices; triangular work enumeration."""
from alg import *
import facts
from check import Check
from rotmath import mp
import mpmath
M = mpmath.mpf
RULE = ("value numbering of InvertPSDMatrix for fixed and dynamic sizes with symbolic entries: every output term == inverse (full rank) or Moore-Penrose pseudo-inverse; the index terms of LinearIndexToUpperTriangularIndex, "
        "evaluated over every work item of every enumerated n, form a bijection onto the upper triangle")


def pinv(vals, n, thr=M("1e-20")):
    A = mpmath.matrix(n, n)
    for i in range(n):
        for j in range(n):
            A[i, j] = vals[i * n + j]
    U, S, V = mpmath.svd_r(A)
    R = mpmath.matrix(n, n)
    for k in range(n):
        if S[k] > max(S) * thr:
            for i in range(n):
                for j in range(n):
                    R[i, j] += V[k, i] * U[j, k] / S[k]
    return R


def pinv_fns():
    """pinv_r_c_i_j(entries...) -> entry of the pseudo-inverse"""
    memo = {}

    def entry(n, i, j):
        def f(*v):
            key = (n,) + tuple(v)
            if key not in memo:
                memo[key] = pinv(v[:n * n], n, *v[n * n:])
            return memo[key][i, j]
        return f
    return {"pinv%s_%d_%d_%d_%d" % (th, n, n, i, j): entry(n, i, j) for n in range(1, 6) for i in range(n) for j in range(n) for th in ("", "thr")}


def psd(r, n, rank, wide=False):
    """symmetric positive semidefinite matrix of the given rank"""
    B = [[mp(r.num(-2, 2)) for _ in range(rank)] for _ in range(n)]
    A = [[sum(B[i][k] * B[j][k] for k in range(rank)) for j in range(n)] for i in range(n)]
    if rank == n:
        for i in range(n):
            A[i][i] += M(1) / 10
    if wide and n > 1:                 # the smallest positive singular value is 1e-11 of the largest
        B = [[(M(1) if i == j else M(0)) for j in range(n)] for i in range(n)]
        a = mp(r.num(0, 3))
        B[0][0], B[0][1], B[1][0], B[1][1] = mpmath.cos(a), -mpmath.sin(a), mpmath.sin(a), mpmath.cos(a)
        D = [M(2)] + [M(1)] * max(0, rank - 2) + ([M("2e-11")] if rank > 1 else []) + [M(0)] * (n - rank)
        A = [[sum(B[i][k] * D[k] * B[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    return A


def run():
    C = Check("C19", RULE, floor=40)
    F = facts.load([facts.witness("psd.cc"), facts.REPO + "/internal/ceres/parallel_utils.cc"])
    r = rng("c19")
    fn = {int(f.get("ta")): f for f in F.fns.values() if f.n == "Inv" and f.q.startswith("w::")}
    loc = loc_of(F, "ceres::internal::InvertPSDMatrix", "InvertPSDMatrix")
    for N in (2, 3, 4, 5, -1):
        for n in ([N] if N > 0 else [1, 2, 3, 4, 5]):
            for full in (1, 0):
                key = "%s of %d x %d, %s size" % ("inverse" if full else "pseudo-inverse", n, n, "fixed" if N > 0 else "dynamic")

                def go(N=N, n=n, full=full, key=key):
                    ip = Interp(F)
                    a = Ptr(Region([Cell(tm.sym("a%d_%d" % (min(i, j), max(i, j)))) for i in range(n) for j in range(n)], "a"))
                    out = array("out", n * n, "uninit")
                    ip.call(fn[N], [const(full), const(n), a, out])
                    for t in range(NPTS):
                        A = psd(r, n, n if full else t % n + 1, wide=t % 3 == 2)
                        p = {"a%d_%d" % (i, j): A[i][j] for i in range(n) for j in range(i, n)}
                        e = tm.Env(p, pinv_fns())
                        W = mpmath.inverse(mpmath.matrix(A)) if full else pinv([x for row in A for x in row], n)
                        for i in range(n):
                            for j in range(n):
                                v = out.reg.cells[i * n + j].v
                                if not isinstance(v, T) or not tm.close(e.ev(v), W[i, j], M("1e-10")):
                                    C.violation(key, loc, "entry (%d, %d) is %s where the %s has %s, e.g. for %s" % (i, j, fmt(e.ev(v)) if isinstance(v, T) else "not set", key.split()[0], fmt(W[i, j]), [fmt(x) for row in A for x in row]))
                                    return
                    C.passed(key)
                    C.count("matrix shapes")
                guarded(C, key, go)

    loc = loc_of(F, "ceres::internal::LinearIndexToUpperTriangularIndex", "LinearIndexToUpperTriangularIndex")
    pair = witness_fn(F, "w::", "Pair")
    for n in list(range(1, 41 if not THOROUGH else 121)):
        key = "work items of n = %d" % n

        def tri(n=n, key=key):
            ip = Interp(F)
            i, j = array("i", 1, "uninit"), array("j", 1, "uninit")
            ip.call(pair, [tm.sym("k"), const(n), i, j])
            seen = {}
            for k in range(n * (n + 1) // 2):
                e = tm.Env({"k": M(k)}, {})
                v = tuple(int(e.ev(x.reg.cells[0].v)) for x in (i, j))
                if not 0 <= v[0] <= v[1] < n:
                    C.violation(key, loc, "work item %d of n = %d is mapped to (%d, %d), outside the upper triangle" % (k, n, v[0], v[1]))
                    return
                if v in seen:
                    C.violation(key, loc, "work items %d and %d of n = %d are both mapped to (%d, %d), so another pair is never visited" % (seen[v], k, n, v[0], v[1]))
                    return
                seen[v] = k
            C.passed(key)
            C.count("work items", len(seen))
        guarded(C, key, tri)
    # large n: every sampled pair (found by the index terms themselves) is in range and distinct items stay distinct
    for n in [r.r.randint(50, 30000) for _ in range(NPTS)] + [46340, 46339, 65534, 65535]:
        key = "sampled work items of n = %d" % n

        def big(n=n, key=key):
            ip = Interp(F)
            ip.intlog = []
            i, j = array("i", 1, "uninit"), array("j", 1, "uninit")
            ip.call(pair, [tm.sym("k"), const(n), i, j])
            tot = n * (n + 1) // 2
            ks = {0, tot - 1} | {r.r.randrange(tot) for _ in range(60)}
            for w in (n, n + 1):               # around every row end of a folded layout
                for q in [r.r.randrange(tot // w) for _ in range(20)]:
                    ks |= {k for k in range(q * w - 2, q * w + q + 3) if 0 <= k < tot and (k < q * w + 3 or k > q * w + q - 3)}
            seen = {}
            for k in sorted(ks):
                e = tm.Env({"k": M(k)}, {})
                for g, t, bits, where in ip.intlog:
                    x = e.ev(t)
                    if not -2 ** bits <= x < 2 ** bits and e.ev(g):
                        C.violation(key, loc, "work item %d of n = %d: the signed expression at %s has the value %s, outside its type" % (k, n, where, fmt(x)))
                        return
                v = tuple(int(e.ev(x.reg.cells[0].v)) for x in (i, j))
                if not 0 <= v[0] <= v[1] < n or v in seen:
                    C.violation(key, loc, "work item %d of n = %d is mapped to (%d, %d)%s" % (k, n, v[0], v[1], ", which item %d already has" % seen[v] if v in seen else ", outside the upper triangle"))
                    return
                seen[v] = k
            C.passed(key)
        guarded(C, key, big)
    C.assume = ["real arithmetic", "Eigen's factorizations return the exact inverse / pseudo-inverse"]
    return C
