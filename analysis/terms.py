"""Hash-consed algebraic terms: the abstract domain of the value-numbering
analysis.  A program value is a term over input symbols; merges of control flow
are gated (`ite`) terms.  Two terms are decided equal by constant folding +
identity testing of the *terms* (Schwartz-Zippel style, 40 digits)."""
from fractions import Fraction
import mpmath
from mpmath import mp

mp.dps = 40


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + tuple(x.id if isinstance(x, T) else ("#", x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        _tab[k] = t
    return t


def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v:
            return mk("nan")
        if v in (float("inf"), float("-inf")):
            return mk("inf") if v > 0 else mk("neginf")
    return mk("c", Fraction(v))


def sym(n):
    return mk("s", n)


TRUE = mk("true")
FALSE = mk("false")
ZERO = const(0)
ONE = const(1)
NAN = mk("nan")
INF = mk("inf")
NEGINF = mk("neginf")


def isc(t):
    return isinstance(t, T) and t.op == "c"


def cval(t):
    return t.a[0]


def add(x, y):
    if isc(x) and isc(y):
        return const(cval(x) + cval(y))
    if x is ZERO:
        return y
    if y is ZERO:
        return x
    return mk("+", x, y)


def neg(x):
    if isc(x):
        return const(-cval(x))
    if x is INF:
        return NEGINF
    if x is NEGINF:
        return INF
    if x.op == "neg":
        return x.a[0]
    return mk("neg", x)


def sub(x, y):
    if isc(x) and isc(y):
        return const(cval(x) - cval(y))
    if y is ZERO:
        return x
    if x is ZERO:
        return neg(y)
    return mk("-", x, y)


def mul(x, y):
    if isc(x) and isc(y):
        return const(cval(x) * cval(y))
    if x is ZERO or y is ZERO:
        return ZERO
    if x is ONE:
        return y
    if y is ONE:
        return x
    return mk("*", x, y)


def div(x, y):
    if isc(x) and isc(y) and cval(y) != 0:
        return const(cval(x) / cval(y))
    if y is ONE:
        return x
    if x is ZERO and y is not ZERO:
        if isc(y):
            return ZERO
    return mk("/", x, y)


def fun(name, *a):
    if name == "abs" and isc(a[0]):
        return const(abs(cval(a[0])))
    if name == "sqrt" and isc(a[0]):
        v = cval(a[0])
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
    if name in ("floor", "ceil", "trunc") and isc(a[0]):
        import math
        return const(getattr(math, name)(cval(a[0])))
    if name == "pow" and isc(a[1]):
        e = cval(a[1])
        if isc(a[0]) and e.denominator == 1 and abs(e) < 64 and (cval(a[0]) != 0 or e > 0):
            return const(cval(a[0]) ** int(e))
        if e == 1:
            return a[0]
    if name in ("isnan", "isinf") and isc(a[0]):
        return FALSE
    if name == "isfinite" and isc(a[0]):
        return TRUE
    if a[0].op in PLAIN and name in ("isnan", "isinf", "isfinite"):
        return const(name == "isfinite")
    if a[0].op in BROKEN and name == "isfinite":
        return FALSE
    if name == "fpclassify" and isc(a[0]):
        return const(2 if cval(a[0]) == 0 else 4)
    if name == "signbit" and isc(a[0]):
        return const(cval(a[0]) < 0)
    return mk("f:" + name, *a)


# ---- integers -----------------------------------------------------------
def idiv(x, y):
    if isc(x) and isc(y) and cval(y) != 0:
        a, b = int(cval(x)), int(cval(y))
        q = abs(a) // abs(b)
        return const(q if (a >= 0) == (b >= 0) else -q)
    return mk("idiv", x, y)


def imod(x, y):
    if isc(x) and isc(y) and cval(y) != 0:
        a, b = int(cval(x)), int(cval(y))
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b >= 0) else -q
        return const(a - q * b)
    return mk("imod", x, y)


# ---- booleans -------------------------------------------------------------
PLAIN = set()      # uninterpreted functions assumed to yield ordinary finite values (no sentinel)
BROKEN = set()     # uninterpreted functions assumed to yield a non-finite value


_syms = {}


def symbols(t):
    r = _syms.get(t.id)
    if r is None:
        r = {t.a[0]} if t.op == "s" else set()
        for x in t.a:
            if isinstance(x, T):
                r |= symbols(x)
        _syms[t.id] = r = frozenset(r)
    return r


ORACLE = None       # (op, x, y) -> True / False / None: comparisons decided by the assumptions of an obligation


def generic(assumed, points):
    """Decides comparisons about nothing but the given symbols that come out the same at all of the sample values."""
    def dec(op, x, y):
        s = set(symbols(x)) | set(symbols(y))
        if not s or not s <= assumed:
            return None
        r = set()
        for p in points:
            e = Env(p)
            a, b = e.ev(x), e.ev(y)
            r.add(bool({"<": a < b, "<=": a <= b, "==": a == b}[op]))
        return r.pop() if len(r) == 1 else None
    return dec


def cmp(op, x, y):
    if isc(x) and isc(y):
        a, b = cval(x), cval(y)
        return const({"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b, "!=": a != b}[op])
    if op == ">":
        return cmp("<", y, x)
    if op == ">=":
        return cmp("<=", y, x)
    if op == "!=":
        return lnot(cmp("==", x, y))
    if x.op in ("true", "false") and y.op in ("true", "false") and op == "==":
        return const(x is y)
    if op == "==" and (x.op in PLAIN or x.op in BROKEN) and isc(y) or op == "==" and isc(x) and (y.op in PLAIN or y.op in BROKEN):
        return FALSE
    if ORACLE is not None:
        r = ORACLE(op, x, y)
        if r is not None:
            return const(r)
    return mk(op, x, y)


def lnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def conj(x):
    return set(x.a) if x.op == "and" else {x}


def entails(s, t, d=0):
    """Does the set of conjuncts s imply t (syntactically)?"""
    if t in s:
        return True
    if d > 4:
        return False
    if t.op == "and":
        return all(entails(s, q, d + 1) for q in t.a)
    if t.op == "not" and t.a[0].op == "and":
        return any(entails(s, lnot(q), d + 1) for q in t.a[0].a)
    return False


def land(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    s = conj(x) | conj(y)
    changed = True
    while changed:
        changed = False
        for t in list(s):
            if lnot(t) in s:
                return FALSE
            if t.op == "not" and t.a[0].op == "and":
                inner = set(t.a[0].a)
                s.discard(t)
                rest = {q for q in inner if not entails(s, q)}
                s.add(t)
                if rest != inner:
                    s.discard(t)
                    changed = True
                    if not rest:
                        return FALSE
                    r = TRUE
                    for q in sorted(rest, key=lambda q: q.id):
                        r = land(r, q)
                    n = lnot(r)
                    s |= conj(n)
                    break
                if any(lnot(q) in s for q in inner):
                    s.discard(t)
                    changed = True
                    break
    if len(s) == 1:
        return next(iter(s))
    return mk("and", *sorted(s, key=lambda q: q.id))


def lor(x, y):
    return lnot(land(lnot(x), lnot(y)))


# ---- propositional canonical form (reduced ordered decision diagrams over the comparisons as atoms)
_bt, _ba, _bu, _bv = {}, {}, {}, {}
BLIMIT = 200000


class TooBig(Exception):
    pass


def _bnode(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    r = _bu.get(k)
    if r is None:
        r = _bu[k] = len(_bu) + 2
        _bv[r] = k
        if len(_bu) > BLIMIT:
            raise TooBig()
    return r


def _bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ba.get(k)
    if r is None:
        v = min(_bv[x][0] for x in k if x > 1)
        lo = [(_bv[x][1] if x > 1 and _bv[x][0] == v else x) for x in k]
        hi = [(_bv[x][2] if x > 1 and _bv[x][0] == v else x) for x in k]
        r = _ba[k] = _bnode(v, _bite(*lo), _bite(*hi))
    return r


_bo = {}


def _bdd(t):
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    r = _bt.get(t.id)
    if r is not None:
        return r
    if t.op == "not":
        r = _bite(_bdd(t.a[0]), 0, 1)
    elif t.op == "and":
        r = 1
        for q in t.a:
            r = _bite(r, _bdd(q), 0)
            if r == 0:
                break
    elif t.op == "ite":
        r = _bite(_bdd(t.a[0]), _bdd(t.a[1]), _bdd(t.a[2]))
    else:
        r = _bnode(_bo.setdefault(t.id, len(_bo)), 0, 1)
    _bt[t.id] = r
    return r


def unsat(t):
    """No truth assignment of its comparisons makes the predicate true (False when unknown)."""
    if t is FALSE:
        return True
    if t.op not in ("and", "not", "ite"):
        return False
    try:
        return _bdd(t) == 0
    except TooBig:
        for d in (_bt, _ba, _bu, _bv, _bo):
            d.clear()
        return False


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return lnot(c)
    if c.op == "not":
        return ite(c.a[0], y, x)
    # drop a redundant inner gate on the same condition
    if x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    return mk("ite", c, x, y)


def leaves(t, limit=64):
    """[(cond, const)] when t is an ite tree over constants, else None."""
    if t.op in ("c", "true", "false"):
        return [(TRUE, t)]
    if t.op == "ite":
        l = leaves(t.a[1], limit)
        r = leaves(t.a[2], limit)
        if l is None or r is None or len(l) + len(r) > limit:
            return None
        c = t.a[0]
        out = [(land(c, g), v) for g, v in l] + [(land(lnot(c), g), v) for g, v in r]
        return [(g, v) for g, v in out if g is not FALSE]
    return None


def tree(t):
    return t.op in ("c", "true", "false") or (t.op == "ite" and tree(t.a[1]) and tree(t.a[2]))


def lift(f, *xs):
    """Pushes integer operation f into ite-trees over constants."""
    for i, x in enumerate(xs):
        if x.op == "ite" and tree(x):
            c = x.a[0]
            a = [assume(z, c, True) for z in xs]
            b = [assume(z, c, False) for z in xs]
            return ite(c, lift(f, *a), lift(f, *b))
    return f(*xs)


def assume(t, c, truth, _d=0):
    """t simplified under `c == truth` (only through the ite spine)."""
    if t.op == "ite":
        if t.a[0] is c:
            return assume(t.a[1] if truth else t.a[2], c, truth)
        return ite(t.a[0], assume(t.a[1], c, truth), assume(t.a[2], c, truth))
    return t


def show(t, d=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "c":
        v = t.a[0]
        return str(v) if v.denominator < 10**6 and abs(v.numerator) < 10**9 else "%.17g" % float(v)
    if t.op == "s":
        return t.a[0]
    if d == 0:
        return "..."
    if t.op in ("+", "-", "*", "/", "<", "<=", "=="):
        return "(%s %s %s)" % (show(t.a[0], d - 1), t.op, show(t.a[1], d - 1))
    if not t.a:
        return t.op
    return "%s(%s)" % (t.op.replace("f:", ""), ", ".join(show(x, d - 1) for x in t.a))


# ---- evaluation of terms ---------------------------------------------------
class Undefined(Exception):
    pass


def _mpf(x):
    return mpmath.mp.make_mpf(mpmath.libmp.from_rational(x.numerator, x.denominator, mpmath.mp.prec, "n"))


_NANV = mpmath.mpf("nan")


def _real(x):
    if isinstance(x, mpmath.mpc):
        return x.real if x.imag == 0 else _NANV
    return x


def _f(name, a):
    x = a[0]
    if name not in ("isnan", "isinf", "isfinite", "fmax", "fmin", "isnormal", "fpclassify", "signbit", "hypot", "copysign"):
        if any(isinstance(v, mpmath.mpf) and mpmath.isnan(v) for v in a):
            if name == "pow" and (a[1] == 0 or a[0] == 1):
                return mpmath.mpf(1)
            return _NANV
    if name == "abs":
        return abs(x)
    if name == "sqrt":
        return mpmath.sqrt(x) if x >= 0 else _NANV
    if name == "cbrt":
        return mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x)
    if name == "log":
        return mpmath.log(x) if x > 0 else (-mpmath.inf if x == 0 else _NANV)
    if name == "log2":
        return mpmath.log(x) / mpmath.log(2) if x > 0 else (-mpmath.inf if x == 0 else _NANV)
    if name == "log10":
        return mpmath.log10(x) if x > 0 else (-mpmath.inf if x == 0 else _NANV)
    if name == "log1p":
        return mpmath.log1p(x) if x > -1 else (-mpmath.inf if x == -1 else _NANV)
    if name == "exp2":
        return mpmath.mpf(2) ** x
    if name in ("asin", "acos"):
        return getattr(mpmath, name)(x) if abs(x) <= 1 else _NANV
    if name == "acosh":
        return mpmath.acosh(x) if x >= 1 else _NANV
    if name == "atanh":
        return mpmath.atanh(x) if abs(x) < 1 else _NANV
    if name in ("exp", "expm1", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asinh", "atan", "erf", "erfc", "floor", "ceil"):
        if mpmath.isinf(x) and name in ("sin", "cos", "tan"):
            return _NANV
        return _real(getattr(mpmath, name)(x))
    if name == "wrap":
        return (x - a[1]) % a[2] + a[1]
    if name == "trunc":
        return mpmath.floor(x) if x >= 0 else mpmath.ceil(x)
    if name == "round":
        return mpmath.floor(abs(x) + mpmath.mpf("0.5")) * (1 if x >= 0 else -1)
    if name == "atan2":
        return mpmath.atan2(x, a[1])
    if name == "hypot":
        if mpmath.isinf(x) or mpmath.isinf(a[1]):
            return mpmath.inf
        return mpmath.sqrt(sum(v * v for v in a))
    if name == "fmod":
        q = x / a[1]
        q = mpmath.floor(q) if q >= 0 else mpmath.ceil(q)
        return x - q * a[1]
    if name == "pow":
        b, e = x, a[1]
        if e == 0:
            return mpmath.mpf(1)
        isint = not mpmath.isinf(e) and e == mpmath.floor(e)
        if b == 0:
            if e > 0:
                return mpmath.mpf(0)
            return mpmath.inf
        if b < 0 and not isint:
            return _NANV
        if isint and abs(e) < 10**6:
            return b ** int(e)
        return _real(mpmath.power(b, e))
    if name in ("cyl_bessel_j", "jn"):
        return mpmath.besselj(int(x), a[1])
    if name == "j0":
        return mpmath.besselj(0, x)
    if name == "j1":
        return mpmath.besselj(1, x)
    if name == "fmax":
        if mpmath.isnan(x):
            return a[1]
        if mpmath.isnan(a[1]):
            return x
        return max(x, a[1])
    if name == "fmin":
        if mpmath.isnan(x):
            return a[1]
        if mpmath.isnan(a[1]):
            return x
        return min(x, a[1])
    if name == "fdim":
        return x - a[1] if x > a[1] else mpmath.mpf(0)
    if name == "fma":
        return x * a[1] + a[2]
    if name == "isnan":
        return bool(mpmath.isnan(x))
    if name == "isinf":
        return bool(mpmath.isinf(x))
    if name == "isfinite":
        return not (mpmath.isnan(x) or mpmath.isinf(x))
    if name == "isnormal":
        return not (mpmath.isnan(x) or mpmath.isinf(x)) and x != 0 and abs(x) >= mpmath.mpf(2) ** -1022
    if name == "signbit":
        return bool(x < 0)
    if name == "fpclassify":
        if mpmath.isnan(x):
            return mpmath.mpf(0)
        if mpmath.isinf(x):
            return mpmath.mpf(1)
        if x == 0:
            return mpmath.mpf(2)
        return mpmath.mpf(3 if abs(x) < mpmath.mpf(2) ** -1022 else 4)
    if name == "copysign":
        return abs(x) if a[1] >= 0 else -abs(x)
    raise Undefined("no interpretation for function " + name)


class Env:
    """Valuation of symbols; `fns` interprets uninterpreted functions u:<name>."""

    def __init__(self, vals, fns=None):
        self.v = {k: (x if isinstance(x, (mpmath.mpf, bool)) else mpmath.mpf(x) if not isinstance(x, Fraction) else _mpf(x)) for k, x in vals.items()}
        self.memo = {}
        self.fns = fns or {}
        self.gates = set()

    def ev(self, t):
        m = self.memo
        r = m.get(t.id)
        if r is not None:
            return r
        # iterative post-order so deep terms do not overflow the stack
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in m:
                stack.pop()
                continue
            op = x.op
            if op == "ite":
                c = x.a[0]
                if c.id not in m:
                    stack.append(c)
                    continue
                b = m[c.id]
                self.gates.add((c.id, bool(b)))
                y = x.a[1] if b else x.a[2]
                if y.id not in m:
                    stack.append(y)
                    continue
                m[x.id] = m[y.id]
                stack.pop()
                continue
            if op == "and":
                # short-circuit in order of creation
                done = False
                val = True
                for q in x.a:
                    if q.id not in m:
                        stack.append(q)
                        done = True
                        break
                    if not m[q.id]:
                        val = False
                        break
                if done:
                    continue
                m[x.id] = val
                stack.pop()
                continue
            todo = [q for q in x.a if isinstance(q, T) and q.id not in m]
            if todo:
                stack.extend(todo)
                continue
            m[x.id] = self._step(x, op)
            stack.pop()
        return m[t.id]

    def _step(self, x, op):
        if op == "c":
            return _mpf(x.a[0])
        if op == "s":
            try:
                return self.v[x.a[0]]
            except KeyError:
                raise Undefined("no value for " + x.a[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "nan":
            return _NANV
        if op == "inf":
            return mpmath.inf
        if op == "neginf":
            return -mpmath.inf
        v = [self.memo[q.id] if isinstance(q, T) else q for q in x.a]
        if op == "not":
            return not v[0]
        v = [mpmath.mpf(int(q)) if isinstance(q, bool) else q for q in v]
        if op == "+":
            return v[0] + v[1]
        if op == "-":
            return v[0] - v[1]
        if op == "*":
            return v[0] * v[1]
        if op == "neg":
            return -v[0]
        if op == "/":
            if v[1] == 0:
                if v[0] == 0 or mpmath.isnan(v[0]):
                    return _NANV
                return mpmath.inf if v[0] > 0 else -mpmath.inf
            return v[0] / v[1]
        if op == "<":
            return bool(v[0] < v[1])
        if op == "<=":
            return bool(v[0] <= v[1])
        if op == "==":
            return bool(v[0] == v[1])
        if op == "idiv":
            q = v[0] / v[1]
            return mpmath.floor(q) if q >= 0 else mpmath.ceil(q)
        if op == "imod":
            q = v[0] / v[1]
            q = mpmath.floor(q) if q >= 0 else mpmath.ceil(q)
            return v[0] - q * v[1]
        if op.startswith("f:"):
            return _f(op[2:], v)
        if op.startswith("u:"):
            f = self.fns.get(op[2:])
            if f is None:
                raise Undefined("uninterpreted " + op[2:])
            return f(*v)
        raise Undefined("op " + op)


def syms(*ts):
    seen, out, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if not isinstance(t, T) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "s":
            out.add(t.a[0])
        st.extend(t.a)
    return out


def size(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T) and x.id not in seen:
            seen.add(x.id)
            st.extend(x.a)
    return len(seen)


# ---- differentiation -------------------------------------------------------
def diff(t, name, memo=None):
    """Symbolic derivative of a term (gates are locally constant)."""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        kids = [q for q in x.a if isinstance(q, T) and q.id not in memo and not (x.op == "ite" and q is x.a[0])]
        if x.op in ("c", "s", "nan", "inf", "neginf", "true", "false", "<", "<=", "==", "not", "and"):
            kids = []
        if kids:
            st.extend(kids)
            continue
        memo[x.id] = _dstep(x, name, memo)
        st.pop()
    return memo[t.id]


def _dstep(x, name, M):
    op = x.op
    if op == "s":
        return ONE if x.a[0] == name else ZERO
    if op in ("c", "nan", "inf", "neginf", "true", "false", "<", "<=", "==", "not", "and"):
        return ZERO
    if op == "ite":
        return ite(x.a[0], M[x.a[1].id], M[x.a[2].id])
    a = x.a
    d = [M[q.id] for q in a if isinstance(q, T)]
    if op == "+":
        return add(d[0], d[1])
    if op == "-":
        return sub(d[0], d[1])
    if op == "neg":
        return neg(d[0])
    if op == "*":
        return add(mul(d[0], a[1]), mul(a[0], d[1]))
    if op == "/":
        if d[1] is ZERO:
            return div(d[0], a[1])
        return div(sub(mul(d[0], a[1]), mul(a[0], d[1])), mul(a[1], a[1]))
    if all(q is ZERO for q in d):
        return ZERO
    u = a[0]
    if op.startswith("f:"):
        n = op[2:]
        sq = lambda z: mul(z, z)
        one = {
            "sqrt": lambda: div(const(Fraction(1, 2)), x),
            "cbrt": lambda: div(ONE, mul(const(3), sq(x))),
            "exp": lambda: x,
            "exp2": lambda: mul(x, fun("log", const(2))),
            "expm1": lambda: fun("exp", u),
            "log": lambda: div(ONE, u),
            "log2": lambda: div(ONE, mul(u, fun("log", const(2)))),
            "log10": lambda: div(ONE, mul(u, fun("log", const(10)))),
            "log1p": lambda: div(ONE, add(ONE, u)),
            "sin": lambda: fun("cos", u),
            "cos": lambda: neg(fun("sin", u)),
            "tan": lambda: add(ONE, sq(x)),
            "asin": lambda: div(ONE, fun("sqrt", sub(ONE, sq(u)))),
            "acos": lambda: neg(div(ONE, fun("sqrt", sub(ONE, sq(u))))),
            "atan": lambda: div(ONE, add(ONE, sq(u))),
            "sinh": lambda: fun("cosh", u),
            "cosh": lambda: fun("sinh", u),
            "tanh": lambda: sub(ONE, sq(x)),
            "asinh": lambda: div(ONE, fun("sqrt", add(sq(u), ONE))),
            "acosh": lambda: div(ONE, fun("sqrt", sub(sq(u), ONE))),
            "atanh": lambda: div(ONE, sub(ONE, sq(u))),
            "erf": lambda: mul(div(const(2), fun("sqrt", mul(const(4), fun("atan", ONE)))), fun("exp", neg(sq(u)))),
            "erfc": lambda: neg(mul(div(const(2), fun("sqrt", mul(const(4), fun("atan", ONE)))), fun("exp", neg(sq(u))))),
            "abs": lambda: ite(cmp("<", u, ZERO), const(-1), ONE),
            "floor": lambda: ZERO, "ceil": lambda: ZERO, "trunc": lambda: ZERO,
            "j0": lambda: neg(fun("j1", u)),
            "j1": lambda: sub(fun("j0", u), div(x, u)),
        }
        if n in one:
            return mul(one[n](), d[0])
        if n == "pow":
            b, e = a
            r = ZERO
            if d[0] is not ZERO:
                r = add(r, mul(d[0], mul(e, fun("pow", b, sub(e, ONE)))))
            if d[1] is not ZERO:
                r = add(r, mul(d[1], mul(x, fun("log", b))))
            return r
        if n == "atan2":
            y, z = a
            return div(sub(mul(d[0], z), mul(y, d[1])), add(mul(y, y), mul(z, z)))
        if n == "hypot":
            s = ZERO
            for q, dq in zip(a, d):
                s = add(s, mul(q, dq))
            return div(s, x)
        if n == "fmax":
            return ite(cmp("<", a[0], a[1]), d[1], d[0])
        if n == "fmin":
            return ite(cmp("<", a[1], a[0]), d[1], d[0])
        if n == "fdim":
            return ite(cmp("<", a[1], a[0]), sub(d[0], d[1]), ZERO)
        if n == "fma":
            return add(add(mul(d[0], a[1]), mul(a[0], d[1])), d[2])
        if n in ("cyl_bessel_j", "jn"):
            k, z = a
            return mul(d[1], div(sub(fun(n, sub(k, ONE), z), fun(n, add(k, ONE), z)), const(2)))
        if n == "copysign":
            return mul(d[0], mul(fun("copysign", ONE, a[0]), fun("copysign", ONE, a[1])))
    if op.startswith("u:"):
        # u:name(args): partial derivative is u:name.D<i>
        r = ZERO
        for i, dq in enumerate(d):
            if dq is not ZERO:
                r = add(r, mul(mk(op + ".D%d" % i, *a), dq))
        return r
    raise Undefined("derivative of " + op)


def uf(name, *a):
    return mk("u:" + name, *[const(q) for q in a])


# ---- equality ---------------------------------------------------------------
class Rng:
    def __init__(self, seed):
        import random
        self.r = random.Random(seed)

    def num(self, lo=-2, hi=2):
        return Fraction(self.r.randrange(1, 10**9), 10**9) * (Fraction(hi) - Fraction(lo)) + Fraction(lo)


def close(x, y, tol=mpmath.mpf("1e-11")):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if mpmath.isnan(x) or mpmath.isnan(y):
        return mpmath.isnan(x) and mpmath.isnan(y)
    if mpmath.isinf(x) or mpmath.isinf(y):
        return x == y
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))
