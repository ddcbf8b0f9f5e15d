"""Shared helpers for the algebraic (value-numbering) checks."""
import os
import mpmath
from fractions import Fraction
import terms as tm
from absint import *

SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
NPTS = 40 if THOROUGH else 8


def rng(tag):
    return tm.Rng("%s-%d" % (tag, SEED))


def witness_fn(F, cls_prefix, name):
    c = [f for f in F.fns.values() if f.n == name and f.q.startswith(cls_prefix)]
    if len(c) != 1:
        return None
    return c[0]


def derive(F, fn, args, this=None, setup=None):
    """Term(s) computed by fn on the given abstract arguments."""
    ip = Interp(F)
    if setup:
        setup(ip)
    r = ip.call(fn, args, this)
    if isinstance(r, (Cell, LVal)):
        r = ip.load(r)
    return r, ip


def compare(got, want, points, fns=None, tol=None):
    """None if the two terms agree at every point, else a counterexample text."""
    n = 0
    for p in points:
        e = tm.Env(p, fns)
        try:
            a = e.ev(got)
        except ZeroDivisionError:
            a = mpmath.mpf("nan")
        if callable(want):
            w = want(e)
        else:
            w = e.ev(want)
        if w == "nonfinite":
            good = isinstance(a, mpmath.mpf) and (mpmath.isnan(a) or mpmath.isinf(a))
        elif w is None:
            continue
        else:
            good = tm.close(a, w, tol) if tol else tm.close(a, w)
        n += 1
        if not good:
            return "computes %s where the specification gives %s, e.g. at %s\n derived term: %s" % (
                fmt(a), fmt(w), ", ".join("%s=%s" % (k, fmt(v)) for k, v in sorted(e.v.items())[:12]), tm.show(got, 8))
    return None


def fmt(x):
    if isinstance(x, (mpmath.mpf, mpmath.mpc)):
        return mpmath.nstr(x, 8)
    return str(x)


def first_repo_fn(F, ip):
    import facts
    for u in ip.touched:
        f = F.fns.get(u)
        if f and f.f.startswith(facts.REPO):
            return f
    return None


def repo_locs(F, ip):
    import facts
    out = []
    for u in ip.touched:
        f = F.fns.get(u)
        if f and f.f.startswith(facts.REPO):
            out.append("%s (%s)" % (f.q, f.loc))
    return sorted(out)


def term_of(v):
    if isinstance(v, T):
        return v
    raise Unsupported("non-scalar result %r" % (v,))


def make_obj(ip, cls, args=(), pick=None):
    """Object of class cls built by its constructor from abstract arguments."""
    F = ip.F
    c = [f for f in F.fns.values() if f.get("ctor") and strip_cvref(f.get("clst", "")) == cls and len(f.params) == len(args)
         and not (len(f.params) == 1 and strip_cvref(f.types[f.params[0]["t"]]) == cls) and (pick is None or pick(f))]
    r = F.recs.get(cls)
    if r is None:
        import facts
        raise facts.AnalysisBroken("class %s not found" % cls)
    o = Obj(cls)
    ip.init_fields(o, r)
    ip.default_member_inits(o, cls)
    if not c and not args:
        return o
    if len(c) != 1:
        import facts
        raise facts.AnalysisBroken("%d constructors of %s with %d parameters" % (len(c), cls, len(args)))
    ip.call(c[0], list(args), o)
    return o


def method(F, cls, name, n=None):
    c = [f for f in F.fns.values() if f.n == name and strip_cvref(f.get("clst", "") or "") == cls and f.body is not None and (n is None or len(f.params) == n)]
    if len(c) != 1:
        import facts
        raise facts.AnalysisBroken("anchor %s::%s: %d definitions" % (cls, name, len(c)))
    return c[0]


def array(name, n, vals=None):
    """Pointer to a fresh region of n cells (symbols name0.. or given terms)."""
    cells = [Cell(tm.sym("%s%d" % (name, i)) if vals is None else (vals[i] if vals != "uninit" else UNINIT)) for i in range(n)]
    return Ptr(Region(cells, name))


def cells(p, n=None):
    out = [c.v for c in p.reg.cells]
    return out if n is None else out[:n]


def guarded(C, key, fn):
    """Runs fn(); converts engine limits to 'undecided', range errors to violations."""
    try:
        return fn()
    except OutOfRange as e:
        C.violation(key, getattr(e, "where", "") or key, "out-of-range access: " + e.msg)
    except (Unsupported, tm.Undefined) as e:
        C.undecided(key, e)
    except (IndexError, KeyError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as e:
        import traceback
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        C.undecided(key, "engine limit: %s: %s (%s)" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1].lineno))
    return None


def jet_sym(F, cls, n, k=None):
    """Jet object whose leaves are the symbols n.a, n.v0, ..."""
    o = Obj(cls)
    Interp(F).init_fields(o, F.recs[cls])
    o.f["a"].v = tm.sym(n + ".a")
    for i, c in enumerate(o.f["v"].v.cells()):
        c.v = tm.sym(n + ".v%d" % i)
    return o


def jet_array(F, cls, n, name=None):
    """Pointer to n Jets: unwritten, or the symbols name0.a, ... when a name is given."""
    cs = []
    for i in range(n):
        if name is None:
            o = Obj(cls)
            Interp(F).init_fields(o, F.recs[cls])
        else:
            o = jet_sym(F, cls, "%s%d" % (name, i))
        cs.append(Cell(o))
    return Ptr(Region(cs, name or "jets"))


def jet_terms(o, k=None):
    return [o.f["a"].v] + [c.v for c in o.f["v"].v.cells()]


def loc_of(F, cls_prefix, name):
    c = [f for f in F.fns.values() if f.n == name and f.q.startswith(cls_prefix)]
    if not c:
        import facts
        raise facts.AnalysisBroken("anchor %s...::%s not found" % (cls_prefix, name))
    return c[0].loc
