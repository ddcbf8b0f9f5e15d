"""C12: small dense matrix kernels."""
from alg import *
import facts
from check import Check
from rotmath import mp
RULE = ("value numbering of every kernel over symbolic operands: each entry of the addressed window of C is (op) the row-column sum of products, each other entry, A and B keep their value, nothing outside the given extents is "
        "read or written, for fixed and dynamic sizes, every remainder class of the unrolled loops and every operation")
SIZES = list(range(1, 18)) if THOROUGH else [1, 2, 3, 4, 5, 6, 7, 8, 9]


def run():
    C = Check("C12", RULE, floor=60)
    F = facts.load([facts.witness("blas.cc")])
    ws = [f for f in F.fns.values() if f.q.startswith("w::") and f.body is not None]
    r = rng("c12")
    kinds = {"MM": ("MatrixMatrixMultiply", False), "MTM": ("MatrixTransposeMatrixMultiply", True), "MV": ("MatrixVectorMultiply", False), "MTV": ("MatrixTransposeVectorMultiply", True)}
    for fn in sorted(ws, key=lambda f: f.q + str(f.get("targs", ""))):
        name, trans = kinds[fn.n]
        loc = loc_of(F, "ceres::internal::" + name, name)
        ta = [int(x) for x in targs(fn)]
        op, dims = ta[-1], ta[:-1]
        for key, go in cases(C, F, fn, name, trans, dims, op, loc, r):
            guarded(C, key, go)
    C.assume = ["real arithmetic", "CERES_NO_CUSTOM_BLAS not defined"]
    return C


def targs(fn):
    a = fn.get("ta")
    if a is None:
        raise facts.AnalysisBroken("no template arguments recorded for %s" % fn.q)
    return a.split(",")


def cases(C, F, fn, name, trans, dims, op, loc, r):
    D = lambda d, opts: [d] if d > 0 else opts
    if fn.n in ("MM", "MTM"):
        ra, ca, rb, cb = dims
        alld = all(d < 0 for d in dims)
        inner_small = [1, 2, 4, 5, 7]
        for m in D(ra, [1, 3] if not trans else SIZES if alld else inner_small):
            for n in D(ca, (SIZES if alld else inner_small) if not trans else [1, 3]):
                for p in ([n] if not trans else [m]):
                    if rb > 0 and rb != p:
                        continue
                    for q in D(cb, SIZES if alld and op == 1 else [1, 2, 3, 4, 6, 7, 9]):
                        rows = n if trans else m
                        for sr, sc, er, ec in ((0, 0, 0, 0), (1, 2, 1, 3)) if q in (1, 3, 4, 6) or not alld else ((1, 2, 0, 1),):
                            key = "%s<%s,%d> %dx%d by %dx%d into offset (%d,%d)" % (name, ",".join(map(str, dims)), op, m, n, p, q, sr, sc)

                            def go(m=m, n=n, p=p, q=q, rows=rows, sr=sr, sc=sc, R=sr + rows + er, S=sc + q + ec, key=key):
                                A, B, Cm = array("a", m * n), array("b", p * q), array("c", R * S)
                                ip = Interp(F)
                                ip.call(fn, [A, const(m), const(n), B, const(p), const(q), Cm, const(sr), const(sc), const(R), const(S)])

                                def want(i, j, v):
                                    i, j = i - sr, j - sc
                                    old = v["c%d" % ((i + sr) * S + j + sc)]
                                    if not (0 <= i < rows and 0 <= j < q):
                                        return old
                                    x = sum(v["a%d" % (k * n + i if trans else i * n + k)] * v["b%d" % (k * q + j)] for k in range(p))
                                    return old + x if op > 0 else old - x if op < 0 else x
                                judge(C, key, loc, r, A, B, Cm, R, S, want)
                            yield key, go
    else:
        ra, ca = dims
        for m in D(ra, SIZES):
            for n in D(ca, SIZES):
                rows, inner = (n, m) if trans else (m, n)
                key = "%s<%s,%d> %dx%d" % (name, ",".join(map(str, dims)), op, m, n)

                def go(m=m, n=n, rows=rows, inner=inner, key=key):
                    A, B, Cm = array("a", m * n), array("b", inner), array("c", rows)
                    ip = Interp(F)
                    ip.call(fn, [A, const(m), const(n), B, Cm])

                    def want(i, j, v):
                        old = v["c%d" % i]
                        x = sum(v["a%d" % (k * n + i if trans else i * n + k)] * v["b%d" % k] for k in range(inner))
                        return old + x if op > 0 else old - x if op < 0 else x
                    judge(C, key, loc, r, A, B, Cm, rows, 1, want)
                yield key, go


def judge(C, key, loc, r, A, B, Cm, R, S, want):
    for nm, P in (("a", A), ("b", B)):
        for i, c in enumerate(P.reg.cells):
            if c.v is not tm.sym("%s%d" % (nm, i)):
                C.violation(key, loc, "operand %s is modified at %d" % (nm, i))
                return
    v = {"%s%d" % (nm, i): mp(r.num(-3, 3)) for nm, P in (("a", A), ("b", B), ("c", Cm)) for i in range(len(P.reg.cells))}
    e = tm.Env(v)
    for i in range(R):
        for j in range(S):
            t = Cm.reg.cells[i * S + j].v
            w = want(i, j, v)
            if not isinstance(t, T) or not tm.close(e.ev(t), w):
                C.violation(key, loc, "entry (%d,%d) of C is %s" % (i, j, tm.show(t, 6) if isinstance(t, T) else "unwritten"))
                return
    C.passed(key)
