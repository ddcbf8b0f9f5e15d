"""Value-numbering abstract interpreter over the resolved syntax trees.

Abstract values are algebraic terms (terms.py), shaped by the C++ types: scalar
terms, structs, arrays/pointers with constant offsets, Eigen vectors/matrices
and blocks as rectangles of cells, lambdas.  Control flow is if-converted: every
join is a gated term, loops must have trip counts that fold to constants.  The
analysis derives, for each output cell of an entry function, the term it
computes as a function of its inputs; nothing is executed, no path is explored
separately and no solver is involved.  Anything outside the domain raises
Unsupported and leaves the obligation undecided (never a verdict)."""
import functools, re, sys
from fractions import Fraction
import terms as tm
from terms import T, TRUE, FALSE, ZERO, ONE, const, ite, land, lnot, lor

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class UninitRead(Unsupported):
    pass


class _Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = _Uninit()


class Cell:
    __slots__ = ("v", "reg", "off")

    def __init__(self, v=UNINIT, reg=None, off=0):
        self.v, self.reg, self.off = v, reg, off


class NullCell(Cell):
    """what a view over a null pointer refers to."""
    __slots__ = ()


class Region:
    """Contiguous storage.  Out-of-range access is reported, not ignored."""
    __slots__ = ("cells", "name", "elem", "lazy", "guard", "when", "node")

    def __init__(self, cells, name="", elem=None, lazy=None):
        self.node = False
        self.cells, self.name, self.elem, self.lazy = cells, name, elem, lazy
        self.when = {}             # appended cells: path predicate of the push_back
        self.guard = TRUE          # path predicate under which the number of elements is the tracked one
        for i, c in enumerate(cells):
            c.reg, c.off = self, i


class OutOfRange(Exception):
    def __init__(self, msg):
        self.msg = msg


class Ptr:
    __slots__ = ("reg", "off")

    def __init__(self, reg, off=ZERO):
        self.reg, self.off = reg, const(off)

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.reg.name, self.off)


class Rev(Ptr):
    """A reverse iterator: refers to the element before off."""
    __slots__ = ()


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class Phi:
    """Gated non-scalar value."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Inserter:
    """std::back_insert_iterator"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Obj:
    __slots__ = ("cls", "f", "base_of", "dead")

    def __init__(self, cls, f=None):
        self.cls, self.f, self.dead = cls, f if f is not None else {}, False

    def __repr__(self):
        return "Obj(%s)" % self.cls


class Arr:
    __slots__ = ("reg",)

    def __init__(self, reg):
        self.reg = reg


def extent(e, b):
    """Distance of two iterators, which has to be a constant."""
    k = tm.lift(tm.sub, e, b)
    if not tm.isc(k):
        raise Unsupported("a range of symbolic length")
    return int(tm.cval(k))


class Vec:
    """std::vector-like: growable region."""
    __slots__ = ("reg", "elem")

    def __init__(self, reg, elem):
        self.reg, self.elem = reg, elem


ASSOC = ("std::map<", "std::set<", "std::unordered_map<", "std::unordered_set<", "absl::btree_map<", "absl::btree_set<", "absl::flat_hash_map<", "absl::flat_hash_set<")


class Assoc(Vec):
    """std::map / std::set and their hashed forms: the region holds the elements, in key order when ordered."""
    __slots__ = ("t", "mp", "ordered", "down", "keyt", "valt")

    def __init__(self, t):
        a = split_targs(t)
        self.t, self.mp, self.ordered = t, "map" in t.split("<")[0], not ("unordered" in t.split("<")[0] or "hash" in t.split("<")[0])
        self.keyt, self.valt = a[0], a[1] if self.mp else None
        rest = a[2 if self.mp else 1:]
        self.down = bool(rest) and rest[0].startswith("std::greater")
        if self.ordered and rest and not rest[0].startswith(("std::less", "std::greater", "std::allocator")):
            raise Unsupported("container ordered by " + rest[0])
        k = self.keyt
        Vec.__init__(self, Region([], "map" if self.mp else "set"), "std::pair<%s, %s>" % (k, self.valt) if self.mp else k)
        self.reg.node = True


class Node(Ptr):
    """Iterator of an associative container: stays with its element when others come or go."""
    __slots__ = ("cell", "d")

    def __init__(self, reg, i):
        self.reg, self.d = reg, None
        self.cell = reg.cells[i] if 0 <= i < len(reg.cells) else None
        if self.cell is None and i != len(reg.cells):
            raise OutOfRange("iterator beyond the end of a container")

    @property
    def off(self):
        if self.cell is None:
            return const(len(self.reg.cells))
        if self.cell.reg is not self.reg:
            raise OutOfRange("use of an iterator whose element was erased")
        return const(self.cell.off)


class VW:
    """Eigen colwise()/rowwise() view."""
    __slots__ = ("m", "col")

    def __init__(self, m, col):
        self.m, self.col = m, col


class Tri:
    """Eigen selfadjointView / triangularView of a matrix."""
    __slots__ = ("m", "sym", "upper", "mode")

    def __init__(self, m, sym, mode):
        self.m, self.sym, self.mode = m, sym, mode
        self.upper = bool(mode & 2)

    def inside(self, i, j):
        return i == j or (i < j) == self.upper


class Dec:
    """Eigen matrix decomposition: kind and a copy of the matrix; solve() is the exact solution."""
    __slots__ = ("kind", "m", "mode", "thr", "type", "pat", "phase", "failed")

    def __init__(self, kind, m, mode=1, type=""):
        self.thr = self.pat = None
        self.type, self.phase, self.failed = type, "", False
        self.kind, self.m, self.mode = kind, m, mode       # mode: the triangle read by a Cholesky factorization


DECS = ("ColPivHouseholderQR", "HouseholderQR", "PartialPivLU", "FullPivLU", "LLT", "LDLT", "EigenSolver", "SelfAdjointEigenSolver", "JacobiSVD", "BDCSVD", "SimplicialLDLT", "SimplicialLLT")
CHOLS = ("LLT", "LDLT", "SimplicialLDLT", "SimplicialLLT")


class Mat:
    """rows x cols rectangle of cells; `grid[r][c]` is a Cell."""
    __slots__ = ("grid", "r", "c", "view", "reg", "rowmajor", "dyn", "base", "arr", "elem", "pat")

    def __init__(self, grid, r, c, view=False, reg=None, rowmajor=False, dyn=(False, False), arr=False):
        self.grid, self.r, self.c, self.view, self.reg, self.rowmajor, self.dyn = grid, r, c, view, reg, rowmajor, dyn
        self.base = None
        self.arr = arr
        self.elem = self.pat = None

    def at(self, i, j=None):
        if j is None:
            if self.c == 1:
                j = 0
            elif self.r == 1:
                i, j = 0, i
            else:
                if self.rowmajor:
                    i, j = divmod(i, self.c)
                else:
                    j, i = divmod(i, self.r)
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise OutOfRange("coefficient (%s,%s) of a %dx%d matrix" % (i, j, self.r, self.c))
        return self.grid[i][j]

    def vals(self):
        return [[self.grid[i][j].v for j in range(self.c)] for i in range(self.r)]

    def cells(self):
        return [c for row in self.grid for c in row]


class Closure:
    __slots__ = ("node", "env", "this", "fn", "caps")

    def __init__(self, node, env, this, fn):
        self.node, self.env, self.this, self.fn = node, env, this, fn


class FnRef:
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node


class Opaque:
    """Analysis-side stand-in for an unknown object; methods are summaries."""

    def __init__(self, name, methods=None):
        self.name, self.methods = name, methods or {}


class LVal:
    """An lvalue; usually a single cell, or gated choice of cells."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts  # [(cond, Cell)]


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.env = {}
        self.returned = FALSE
        self.ret = UNINIT
        self.loops = []
        self.locks = []   # locks held by local variables
        self.own = {}     # id(cell) -> (cell, predicate under which it was declared)


def split_targs(s):
    """template arguments of the outermost <...> of a type name."""
    i = s.find("<")
    if i < 0:
        return []
    depth, cur, out = 0, "", []
    for ch in s[i + 1:]:
        if ch in "<({[":
            depth += 1
        if ch in ">)}]":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# integer types whose range real programs exceed by accident
NARROW = {"short": (16, True), "unsigned short": (16, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
          "int8_t": (8, True), "uint8_t": (8, False), "int16_t": (16, True), "uint16_t": (16, False)}


def strip_cvref(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r"^(const|volatile|typename|struct|class)\s+", "", t)
        t = re.sub(r"\s*(&&|&)\s*$", "", t)
        t = re.sub(r"\s+const$", "", t)
        t = re.sub(r"\*\s*const$", "*", t)
        t = t.strip()
        if t == o:
            return t


INTS = {"int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "long long", "unsigned long long", "char", "signed char", "unsigned char", "__int128"}
FLOATS = {"double", "float", "long double"}

MATH1 = {"sqrt", "cbrt", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc", "floor", "ceil", "trunc", "round", "j0", "j1", "isnan", "isinf", "isfinite", "isnormal", "signbit", "fpclassify", "lgamma", "tgamma"}
MATH2 = {"pow", "atan2", "fmod", "fmax", "fmin", "fdim", "copysign", "cyl_bessel_j", "jn", "nextafter"}


SYNC = ("std::mutex", "std::unique_lock<", "std::lock_guard<", "std::scoped_lock<", "std::condition_variable", "std::recursive_mutex", "std::unique_lock", "std::lock_guard", "std::scoped_lock")


class Handle:
    """Something with an identity, such as a mutex or a thread: copies refer to the same."""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o


def held(lock):
    return "held" in lock.f and lock.f["held"].v is TRUE


LOCKS = ("std::unique_lock", "std::lock_guard", "std::scoped_lock")


class Interp:
    intlog = None

    def __init__(self, F, max_steps=400000):
        self.consts = {}
        self.F = F
        self.live = TRUE
        self.frames = []
        self.assumed = []       # conditions of CHECKs taken to hold
        self.steps = 0
        self.max_steps = max_steps
        self.hooks = {}         # qualified name -> python callable(interp, this, args, node)
        self.globals = {}
        self.calls = 0
        self.touched = set()
        self.events = []
        self.aborts = []           # path predicates of failing CHECKs
        self.shares = {}
        self.deletes = None        # the objects deleted, where they are followed
        self.dtors = None
        self.decide = None         # decides open conditions, to follow one path
        self.inexact = None        # factor of every Cholesky solution, for iterative refinement
        self.factors = 0
        self.mathhook = None
        self.coop = None        # several threads of control (see coop.py)
        self.addrs = {}         # ranks of addresses used as keys
        self.pending = []       # tasks handed to a thread pool that have not run yet

        def text(ip, recv, args, n):         # text is not modelled, only that there is some
            return Obj("std::basic_string<char>", {"used": Cell(TRUE)})

        def append(ip, recv, args, n):
            o = ip.load(ip.deref(ip.load(args[0]) if isinstance(args[0], (Cell, LVal)) else args[0]))
            if isinstance(o, Obj):
                o.f["used"] = Cell(TRUE)
        for k in ("StrFormat", "StrCat"):
            self.hooks["absl::" + k] = text
        for k in ("StrAppendFormat", "StrAppend"):
            self.hooks["absl::" + k] = append
        self.hooks["absl::vf_clock"] = lambda ip, recv, args, n: ZERO

    # ------------------------------------------------------------- types
    def default(self, t, depth=0):
        """Value of a default-initialised variable of type t."""
        t = strip_cvref(t)
        if t in INTS or t in FLOATS or t == "bool" or t.endswith("*") or t == "std::nullptr_t":
            return UNINIT
        if t in self.F.enums or t.startswith("enum "):
            return UNINIT
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m:
            inner = m.group(1)
            # leading dimension is the first bracket
            mm = re.match(r"^([^\[]*)((?:\[\d+\])+)$", t)
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", mm.group(2))]
            base = mm.group(1).strip()
            rest = base + "".join("[%d]" % d for d in dims[1:])
            return Arr(Region([Cell(self.default(rest)) for _ in range(dims[0])], "array"))
        if t.startswith("Eigen::Matrix<") or t.startswith("Eigen::Array<"):
            a = split_targs(t)
            r, c = int(a[1]), int(a[2])
            opt = int(a[3]) if len(a) > 3 else 0
            return self.newmat(max(r, 0), max(c, 0), a[0], rowmajor=bool(opt & 1), dyn=(r < 0, c < 0), arr=t.startswith("Eigen::Array<"))
        if t.startswith("std::array<"):
            a = split_targs(t)
            n = int(re.sub(r"[uUlL]+$", "", a[1]))
            return Arr(Region([Cell(self.default(a[0])) for _ in range(n)], "array"))
        if t.startswith(("std::vector<", "std::list<", "std::__cxx11::list<", "std::deque<", "std::queue<")):
            return Vec(Region([], "vector"), split_targs(t)[0])
        if t.startswith(ASSOC):
            return Assoc(t)
        if t.startswith(("std::unique_ptr<", "std::shared_ptr<")):
            return NULL
        if t.startswith("std::pair<"):
            a = split_targs(t)
            return Obj(t, {"first": Cell(self.default(a[0])), "second": Cell(self.default(a[1]))})
        if t.startswith("std::tuple<"):
            a = split_targs(t)
            return Obj(t, {"get%d" % i: Cell(self.default(x)) for i, x in enumerate(a)})
        r = self.F.recs.get(t)
        if r is not None:
            o = Obj(t)
            self.init_fields(o, r)
            return o
        if t.startswith("std::integral_constant<") or t.startswith("std::integer_sequence<"):
            return Obj(t)
        if t.startswith("Eigen::SparseMatrix<"):
            return self.newmat(0, 0, split_targs(t)[0], dyn=(True, True))
        d = self.decomposition(t)
        if d is not None:
            return d
        if t.startswith("Eigen::") or t.startswith("std::"):
            return Obj(t)
        if "(lambda" in t or "(anonymous" in t:
            return Obj(t)
        raise Unsupported("type " + t)

    def decomposition(self, t, m=None):
        dm = re.match(r"Eigen::(\w+)<", t)
        if not dm or dm.group(1) not in DECS:
            return None
        return Dec(dm.group(1), m, 2 if dm.group(1) in CHOLS and split_targs(t)[1:2] == ["2"] else 1, t)

    def decompose(self, t, av):
        d = self.decomposition(t)
        if av and isinstance(av[0], Mat):
            d.m = self.copy(av[0])
            if split_targs(t)[0].startswith("Eigen::Ref<"):      # factorized in place: the matrix is gone
                for i in range(d.m.r):
                    for j in range(d.m.c):
                        if d.kind not in CHOLS or (j >= i if d.mode == 2 else j <= i):
                            self.factors += 1
                            av[0].grid[i][j].v = tm.sym("factor%d" % self.factors)
            d.phase = "factorized"
        return d

    def init_fields(self, o, r):
        for b in r.h["bases"]:
            br = self.F.recs.get(r.types[b])
            if br:
                self.init_fields(o, br)
            elif r.types[b].startswith(("std::array<", "std::vector<")):
                o.f["__base"] = Cell(self.default(r.types[b]))
        for f in r.h["fields"]:
            o.f.setdefault(f["n"], Cell(self.default(r.types[f["t"]])))

    def newmat(self, r, c, elem="double", rowmajor=False, dyn=(False, False), fill=None, arr=False):
        mk = (lambda: self.default(elem)) if fill is None else (lambda: fill)
        n = r * c
        cells = [Cell(mk()) for _ in range(n)]
        reg = Region(cells, "matrix")
        if rowmajor:
            grid = [[cells[i * c + j] for j in range(c)] for i in range(r)]
        else:
            grid = [[cells[j * r + i] for j in range(c)] for i in range(r)]
        m = Mat(grid, r, c, reg=reg, rowmajor=rowmajor, dyn=dyn, arr=arr)
        m.elem = elem
        return m

    def matfrom(self, vals, arr=False):
        r = len(vals)
        c = len(vals[0]) if r else 0
        m = self.newmat(r, c, fill=UNINIT, arr=arr)
        for i in range(r):
            for j in range(c):
                m.grid[i][j].v = vals[i][j]
        return m

    # ------------------------------------------------------------- copies
    def copy_as(self, v, t):
        """copy of a value of type t: a pointer's copy points to the same object"""
        t = strip_cvref(t or "")
        if t.endswith(("*", "*const")) or t.startswith(("std::unique_ptr<", "std::shared_ptr<", "std::reference_wrapper<")):
            return v if isinstance(v, (Obj, Closure, Opaque, Ptr, Phi)) else self.copy(v)
        return self.copy(v)

    def copy(self, v):
        if isinstance(v, Obj):
            shared = self.sharing(v.cls)
            return Obj(v.cls, {k: (c if shared[k] else Cell(self.copy_as(c.v, "T*"))) if k in shared else Cell(self.copy(c.v)) for k, c in v.f.items()})
        if isinstance(v, Arr):
            return Arr(Region([Cell(self.copy(c.v)) for c in v.reg.cells], v.reg.name))
        if isinstance(v, Assoc):
            w = Assoc(v.t)
            w.reg = Region([Cell(self.copy_elem(c.v, v)) for c in v.reg.cells], v.reg.name)
            w.reg.node, w.reg.guard = True, v.reg.guard
            return w
        if isinstance(v, Vec):
            w = Vec(Region([Cell(self.copy_as(c.v, v.elem)) for c in v.reg.cells], v.reg.name), v.elem)
            w.reg.guard = v.reg.guard
            return w
        if isinstance(v, Mat):
            m = self.newmat(v.r, v.c, v.elem, fill=UNINIT, rowmajor=v.rowmajor, dyn=v.dyn, arr=v.arr)
            for i in range(v.r):
                for j in range(v.c):
                    m.grid[i][j].v = self.copy(v.grid[i][j].v)
            m.pat = v.pat
            return m
        if isinstance(v, Phi):
            return Phi(v.c, self.copy(v.a), self.copy(v.b))
        return v

    def sharing(self, cls):
        """The members of a class that are references (True) or pointers (False): copies refer to the same object."""
        d = self.shares.get(cls)
        if d is None:
            d = self.shares[cls] = {}
            r = self.F.recs.get(cls)
            for f in (r.h["fields"] if r else []):
                t = r.types[f["t"]].rstrip()
                if t.endswith("&") or self.pointer_type(t):
                    d[f["n"]] = t.endswith("&")
        return d

    def copy_val(self, v):
        return self.copy(v) if isinstance(v, Obj) and v.cls.startswith(("std::pair<", "std::tuple<")) else v

    def span(self, a):
        """what the iterators a[0], a[1] enclose"""
        if isinstance(a[0], Rev):
            k = extent(a[0].off, a[1].off)
            return [self.deref(Ptr(a[0].reg, tm.sub(a[0].off, const(1 + i)))) for i in range(k)]
        return [self.deref(a[0], const(i)) for i in range(extent(a[1].off, a[0].off))]

    def range_of_pointers(self, it):
        """Whether what an iterator refers to is a pointer."""
        et = re.match(r"(?:__gnu_cxx::__normal_iterator<)?(.*?\S) ?(\*+)(?: ?const)?(?:,|$)", strip_cvref(self.ty(it)))
        return et is None or len(et[2]) > 1 or et[1].startswith(("std::unique_ptr<", "std::shared_ptr<", "std::reference_wrapper<"))

    def copy_elem(self, v, a):
        """copy of an element of the associative container a"""
        if not a.mp:
            return self.copy_as(v, a.keyt)
        return Obj(v.cls, {"first": Cell(self.copy_as(v.f["first"].v, a.keyt)), "second": Cell(self.copy_as(v.f["second"].v, a.valt))})

    # ------------------------------------------------------------- associative containers
    def keyof(self, v):
        """A totally ordered image of a concrete key; addresses are ordered by first use."""
        if isinstance(v, T) and tm.isc(v):
            return tm.cval(v)
        if isinstance(v, T) and v.op in ("true", "false"):
            return int(v is TRUE)
        if isinstance(v, Null):
            return (-1, 0)
        if isinstance(v, Ptr):
            if not tm.isc(v.off):
                raise Unsupported("symbolic key")
            return (self.addr_rank(v.reg), tm.cval(v.off))
        if isinstance(v, Obj) and v.cls.startswith(("std::pair<", "std::tuple<")):
            return tuple(self.keyof(c.v) for c in v.f.values())
        if isinstance(v, Handle):
            return (self.addr_rank(v.o), 0)
        if isinstance(v, (Obj, Opaque, Closure)):
            return (self.addr_rank(v), 0)
        if isinstance(v, Vec):
            return tuple(self.keyof(c.v) for c in v.reg.cells)
        raise Unsupported("key %r" % (v,))

    def addr_rank(self, o):
        r = self.addrs.get(id(o))
        if r is None:
            r = self.addrs[id(o)] = (len(self.addrs), o)
        return r[0]

    def a_key(self, m, c):
        return self.keyof(c.v.f["first"].v if m.mp else c.v)

    def a_find(self, m, k):
        for i, c in enumerate(m.reg.cells):
            if self.a_key(m, c) == k:
                return i
        return None

    def a_insert(self, m, elem):
        """(index, inserted) for an element value"""
        k = self.keyof(elem.f["first"].v if m.mp else elem)
        i = self.a_find(m, k)
        if i is not None:
            return i, False
        self.sized(m.reg, True)
        cs = m.reg.cells
        i = len(cs)
        if m.ordered:
            i = 0
            while i < len(cs) and (self.a_key(m, cs[i]) > k if m.down else self.a_key(m, cs[i]) < k):
                i += 1
        cs.insert(i, Cell(elem))
        for j, c in enumerate(cs):
            c.reg, c.off = m.reg, j
        return i, True

    def a_erase(self, m, i):
        self.sized(m.reg, True)
        if not 0 <= i < len(m.reg.cells):
            raise OutOfRange("erase of the end iterator")
        c = m.reg.cells.pop(i)
        c.reg = None
        for j, c in enumerate(m.reg.cells):
            c.off = j

    def a_elem(self, m, v):
        """element value from an argument value (a pair for maps)"""
        if m.mp:
            if isinstance(v, list) and len(v) == 2:
                v = Obj(m.elem, {"first": Cell(v[0]), "second": Cell(self.aggregate(v[1], strip_cvref(m.valt)) if isinstance(v[1], list) else v[1])})
            if not (isinstance(v, Obj) and "first" in v.f):
                raise Unsupported("map element %r" % (v,))
            return Obj(m.elem, {"first": Cell(self.copy_as(self.convert(self.decay(v.f["first"].v, m.keyt), m.keyt), m.keyt)), "second": Cell(self.copy_as(self.convert(v.f["second"].v, m.valt), m.valt))})
        if isinstance(v, list):
            v = self.aggregate(v, strip_cvref(m.keyt))
        return self.convert(self.copy_as(self.decay(v, m.keyt), m.keyt), m.keyt)

    def a_index(self, m, k):
        """lvalue of m[k]"""
        k = self.convert(self.copy_as(self.decay(k, m.keyt), m.keyt), m.keyt)
        i = self.a_find(m, self.keyof(k))
        if i is None:
            i, _ = self.a_insert(m, Obj(m.elem, {"first": Cell(k), "second": Cell(self.zero(strip_cvref(m.valt)))}))
        return m.reg.cells[i].v.f["second"]

    def a_range(self, m, lo, hi):
        for i in range(extent(hi.off, lo.off)):
            self.a_insert(m, self.a_elem(m, self.load(self.deref(lo, const(i)))))

    def a_member(self, m, name, args, n, base):
        self.sized(m.reg)
        if self.coop:
            self.coop.access(m, name in ("insert", "emplace", "try_emplace", "erase", "clear", "swap", "insert_or_assign", "extract", "merge"))
        it = lambda i: Node(m.reg, i)
        size = len(m.reg.cells)
        if name == "size":
            return const(size)
        if name == "empty":
            return const(not size)
        if name in ("begin", "cbegin"):
            return it(0)
        if name in ("end", "cend"):
            return it(size)
        if name in ("rbegin", "crbegin") and m.ordered:
            return Rev(m.reg, const(size))
        if name in ("rend", "crend") and m.ordered:
            return Rev(m.reg)
        if name == "clear":
            self.sized(m.reg, True)
            for c in m.reg.cells:
                c.reg = None
            m.reg.cells = []
            return None
        if name in ("reserve", "rehash"):
            return None
        if name == "swap":
            o = self.eval(args[0])
            self.sized(o.reg, True)
            self.sized(m.reg, True)
            m.reg, o.reg = o.reg, m.reg
            return None
        if name in ("find", "count", "contains", "at", "lower_bound", "upper_bound", "equal_range"):
            k = self.keyof(self.convert(self.decay(self.eval(args[0]), m.keyt), m.keyt))
            if name in ("lower_bound", "upper_bound"):
                i = 0
                while i < size and (self.a_key(m, m.reg.cells[i]) < k or name == "upper_bound" and self.a_key(m, m.reg.cells[i]) == k):
                    i += 1
                return it(i)
            i = self.a_find(m, k)
            if name == "find":
                return it(size if i is None else i)
            if name == "count":
                return const(0 if i is None else 1)
            if name == "contains":
                return const(i is not None)
            if name == "at" and m.mp:
                if i is None:
                    raise OutOfRange("at() of a key the map does not hold")
                return m.reg.cells[i].v.f["second"]
        if name == "insert" and len(args) == 2:
            a, b = self.eval(args[0]), self.eval(args[1])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and not (isinstance(a, Node) and a.reg is m.reg):
                self.a_range(m, a, b)
                return None
            if isinstance(a, Node):
                return it(self.a_insert(m, self.a_elem(m, b))[0])
        if name == "insert" and len(args) == 1:
            v = self.eval(args[0])
            if isinstance(v, (Arr, list)) and "initializer_list" in self.ty(args[0]):
                for x in (v if isinstance(v, list) else [c.v for c in v.reg.cells]):
                    self.a_insert(m, self.a_elem(m, x))
                return None
            i, new = self.a_insert(m, self.a_elem(m, v))
            return Obj("std::pair<iterator, bool>", {"first": Cell(it(i)), "second": Cell(const(new))})
        if name in ("emplace", "try_emplace"):
            av = [self.eval(a) for a in args]
            if m.mp:
                if len(av) == 1:
                    e = self.a_elem(m, av[0])
                elif len(av) == 2:
                    if isinstance(av[1], list):
                        av[1] = self.aggregate(av[1], strip_cvref(m.valt))
                    elif strip_cvref(m.valt) in self.F.recs and not (isinstance(av[1], Obj) and av[1].cls == strip_cvref(m.valt)):
                        av[1] = self.emplace(m.valt, args[1:])
                    e = self.a_elem(m, Obj("", {"first": Cell(av[0]), "second": Cell(av[1])}))
                else:
                    raise Unsupported("emplace with %d arguments" % len(av))
            elif len(av) == 1:
                e = self.a_elem(m, av[0])
            else:
                e = self.default(strip_cvref(m.keyt))
                for c, v in zip(e.f.values(), av):
                    c.v = v
            i, new = self.a_insert(m, e)
            return Obj("std::pair<iterator, bool>", {"first": Cell(it(i)), "second": Cell(const(new))})
        if name == "insert_or_assign":
            k, v = [self.eval(a) for a in args]
            lv = self.a_index(m, k)
            self.store(lv, self.convert(self.copy_as(v, m.valt), m.valt))
            return None
        if name == "erase":
            v = self.eval(args[0])
            if isinstance(v, Node):
                i = extent(v.off, ZERO)
                j = extent(self.eval(args[1]).off, ZERO) if len(args) > 1 else i + 1
                for _ in range(j - i):
                    self.a_erase(m, i)
                return it(i)
            i = self.a_find(m, self.keyof(self.convert(self.decay(v, m.keyt), m.keyt)))
            if i is not None:
                self.a_erase(m, i)
            return const(0 if i is None else 1)
        raise Unsupported("%s of an associative container at %s" % (name, self.where(n)))

    # ------------------------------------------------------------- writes
    def gate(self, c, a, b):
        """c ? a : b on arbitrary values."""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, _Uninit):
            return b
        if isinstance(b, _Uninit):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and set(a.f) == set(b.f):
            return Obj(a.cls, {k: Cell(self.gate(c, a.f[k].v, b.f[k].v)) for k in a.f})
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
            return self.matfrom([[self.gate(c, a.grid[i][j].v, b.grid[i][j].v) for j in range(a.c)] for i in range(a.r)])
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.reg.cells) == len(b.reg.cells):
            return Arr(Region([Cell(self.gate(c, x.v, y.v)) for x, y in zip(a.reg.cells, b.reg.cells)]))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
            return Ptr(a.reg, ite(c, a.off, b.off))
        return Phi(c, a, b)

    PTRLIKE = ("std::unique_ptr<", "std::shared_ptr<", "std::reference_wrapper<")

    def pointer_type(self, t):
        t = strip_cvref(t)
        return t.endswith(("*", "*const")) or t.startswith(self.PTRLIKE)

    def pointers_at(self, e):
        """Is the value of e an iterator over pointers?"""
        t = strip_cvref(self.ty(e) or "")
        if "__normal_iterator<" in t:
            t = split_targs(t)[0]
        t = re.sub(r"\s*const$", "", t.strip())
        return t.endswith("*") and self.pointer_type(t[:-1].strip())

    def write(self, cell, v, cond=TRUE, rebind=False):
        p = land(self.live, cond)
        if p is FALSE:
            return
        if p is TRUE and isinstance(cell, NullCell):
            raise OutOfRange("write through a view of a null pointer")
        old = cell.v
        if isinstance(v, (Obj, Mat, Arr, Vec)) and isinstance(old, (Obj, Mat, Arr, Vec)):
            if rebind and v is old:
                return
            if not rebind:
                self.assign_into(old, v, cond, cell)
                return
        if p is not TRUE and not isinstance(old, _Uninit):
            own = self.frames[-1].own.get(id(cell)) if self.frames else None
            # a local is unobservable where it was never declared or where the function has returned
            if own is None or lor(p, lor(lnot(own[1]), self.frames[-1].returned)) is not TRUE:
                v = self.gate(p, v, old)
        cell.v = v

    def assign_into(self, dst, src, cond=TRUE, cell=None):
        if dst is src:
            return
        if isinstance(dst, Obj) and isinstance(src, Obj):
            src = self.copy(src)
            if dst.cls != src.cls and dst.cls.startswith(("std::tuple<", "std::pair<")) and src.cls.startswith(("std::tuple<", "std::pair<")):
                if len(dst.f) != len(src.f):
                    raise Unsupported("assignment %s <- %s" % (dst.cls, src.cls))
                for k, c in zip(dst.f.values(), src.f.values()):
                    self.write(k, c.v, cond)
                return
            for k in src.f:
                if k not in dst.f:
                    dst.f[k] = Cell()
                self.write(dst.f[k], src.f[k].v, cond)
            return
        if isinstance(dst, Mat):
            if isinstance(src, Mat):
                vals = src.vals()
                if (dst.r, dst.c) != (src.r, src.c):
                    if not dst.view and (dst.dyn[0] or dst.dyn[1]):
                        self.resize(dst, src.r, src.c)
                    elif dst.r * dst.c == src.r * src.c and 1 in (dst.r, dst.c) and 1 in (src.r, src.c):
                        vals = [[c.v] for c in src.cells()] if dst.c == 1 else [[c.v for c in src.cells()]]
                    else:
                        raise Unsupported("matrix shape mismatch %dx%d <- %dx%d" % (dst.r, dst.c, src.r, src.c))
                vals = [[self.copy(x) for x in row] for row in vals]
                for i in range(dst.r):
                    for j in range(dst.c):
                        self.write(dst.grid[i][j], vals[i][j], cond)
                return
        if isinstance(dst, Arr) and isinstance(src, Arr):
            vals = [self.copy(c.v) for c in src.reg.cells]
            for c, v in zip(dst.reg.cells, vals):
                self.write(c, v, cond)
            return
        if isinstance(dst, Vec) and isinstance(src, Vec):
            self.sized(src.reg)
            g = land(self.live, cond)
            dst.reg = self.copy(src).reg
            dst.reg.guard = g
            return
        if cell is not None and land(self.live, cond) is TRUE:
            cell.v = src
            return
        raise Unsupported("assignment %s <- %s" % (dst, src))

    def sized(self, reg, change=False):
        """A vector that grew under a path predicate may only be used where that predicate holds."""
        if reg.guard is not TRUE and land(self.live, lnot(reg.guard)) is not FALSE:
            raise Unsupported("vector of conditional length")
        if change:
            reg.guard = self.live

    def resize(self, m, r, c, keep=False):
        if (m.r, m.c) == (r, c):
            return
        n = self.newmat(r, c, m.elem or "double", rowmajor=m.rowmajor, dyn=m.dyn, fill=None if m.elem else UNINIT)
        if keep:
            for i in range(min(r, m.r)):
                for j in range(min(c, m.c)):
                    n.grid[i][j].v = m.grid[i][j].v
        m.grid, m.r, m.c, m.reg = n.grid, r, c, n.reg

    # ------------------------------------------------------------- pointers
    def deref(self, p, idx=ZERO, node=None):
        """LVal for p[idx]."""
        if isinstance(p, Phi):
            A = B = []
            A = self.deref(p.a, idx, node).alts if not isinstance(p.a, Null) else []
            B = self.deref(p.b, idx, node).alts if not isinstance(p.b, Null) else []
            return LVal([(land(p.c, c), x) for c, x in A] + [(land(lnot(p.c), c), x) for c, x in B])
        if isinstance(p, Arr):
            p = Ptr(p.reg)
        if isinstance(p, Null):
            if self.live is not TRUE:
                return LVal([(FALSE, Cell())])
            raise OutOfRange("null pointer dereference")
        if not isinstance(p, Ptr):
            if isinstance(p, (Opaque, Obj, Vec, Mat, Closure)):
                return LVal([(TRUE, Cell(p))])
            raise Unsupported("dereference of %r" % (p,))
        if isinstance(p, Rev):
            return LVal(self.region_cells(p.reg, tm.lift(tm.sub, p.off, tm.add(const(idx), ONE))))
        off = tm.lift(tm.add, p.off, const(idx))
        return LVal(self.region_cells(p.reg, off))

    def region_cells(self, reg, off):
        if tm.isc(off):
            return [(TRUE, self.region_at(reg, int(tm.cval(off))))]
        lv = tm.leaves(off)
        if lv is None:
            raise Unsupported("symbolic index " + tm.show(off))
        return [(g, self.region_at(reg, int(tm.cval(v)))) for g, v in lv]

    def region_at(self, reg, i):
        if reg.guard is not TRUE:
            self.sized(reg)
        if reg.lazy is not None and i >= 0:
            while i >= len(reg.cells):
                k = len(reg.cells)
                reg.cells.append(Cell(reg.lazy(k), reg, k))
        if not 0 <= i < len(reg.cells):
            raise OutOfRange("index %d of %s with %d elements" % (i, reg.name or "array", len(reg.cells)))
        return reg.cells[i]

    def resolve(self, v):
        """A gated value read where its gate is already decided by the path predicate."""
        while isinstance(v, Phi) or (isinstance(v, T) and v.op == "ite"):
            if isinstance(v, T):
                v = Phi(*v.a)
                if land(self.live, v.c) is FALSE:
                    v = v.b
                elif land(self.live, lnot(v.c)) is FALSE:
                    v = v.a
                else:
                    return ite(v.c, v.a, v.b)
                continue
            if self.never(v.c):
                v = v.b
            elif self.never(lnot(v.c)):
                v = v.a
            else:
                return self.settle(v) if isinstance(v.a, Phi) or isinstance(v.b, Phi) else v
        return v

    def never(self, c):
        p = land(self.live, c)
        return p is FALSE or tm.unsat(p)

    def part(self, r, v):
        return self.part(r, v.a) or self.part(r, v.b) if isinstance(v, Phi) else r is v

    def merged(self, v):
        """Gated matrices of one shape are one matrix of gated coefficients."""
        if not isinstance(v, Phi):
            return v
        a, b = self.merged(v.a), self.merged(v.b)
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
            return self.gate(v.c, a, b)
        return v if a is v.a and b is v.b else Phi(v.c, a, b)

    def settle(self, v):
        """The alternatives of nested gates that are reachable here; one matrix when they agree in shape."""
        p = self.live
        try:
            self.live = land(p, v.c)
            a = self.resolve(v.a) if isinstance(v.a, Phi) else v.a
            self.live = land(p, lnot(v.c))
            b = self.resolve(v.b) if isinstance(v.b, Phi) else v.b
        finally:
            self.live = p
        if a is v.a and b is v.b:
            return v
        return self.gate(v.c, a, b)

    def load(self, lv):
        if isinstance(lv, Cell):
            v = lv.v
            if isinstance(v, Phi):
                lv.v = v = self.merged(v)
            if isinstance(v, Phi) or (isinstance(v, T) and v.op == "ite" and self.live is not TRUE):
                r = self.resolve(v)
                if isinstance(v, Phi) and isinstance(r, Mat) and not self.part(r, v):
                    lv.v = Phi(self.live, r, v)     # writes through r must be seen here
                return r
            return v
        if len(lv.alts) == 1:
            return self.load(lv.alts[0][1])
        v = UNINIT
        for g, c in reversed(lv.alts):
            if self.live is not TRUE and land(self.live, g) is FALSE:
                continue
            v = self.gate(g, c.v, v)
        return v

    def store(self, lv, v, rebind=False):
        """rebind: the value is a pointer, which an object here stands for"""
        if isinstance(lv, Cell):
            return self.write(lv, v, rebind=rebind)
        if len(lv.alts) == 1:
            return self.write(lv.alts[0][1], v, rebind=rebind)
        for g, c in lv.alts:
            self.write(c, v if rebind else self.copy(v), g, rebind)

    def addr(self, lv):
        if isinstance(lv, LVal):
            if len(lv.alts) == 1:
                return self.addr(lv.alts[0][1])
            r = None
            for g, c in reversed(lv.alts):
                a = self.addr(c)
                r = a if r is None else self.gate(g, a, r)
            return r
        if lv.reg is None:
            Region([lv], "object")
        return Ptr(lv.reg, const(lv.off))

    # ------------------------------------------------------------- calls
    def call(self, fn, args, this=None):
        """args: list of Cells (lvalues) or values, matched to parameters."""
        if self.deletes is not None and isinstance(this, Obj) and this.dead:
            raise OutOfRange("%s() of a deleted %s is called" % (fn.q.split("::")[-1], this.cls))
        self.calls += 1
        self.touched.add(fn.u)
        if len(self.frames) > 120:
            raise Unsupported("recursion")
        fr = Frame(fn, this)
        saved = self.live
        self.frames.append(fr)
        try:
            for p, a in zip(fn.params, args):
                t = fn.types[p["t"]]
                self.bind(fr, p["d"], t, a)
            if fn.get("ctor"):
                self.ctor_inits(fn, this)
            self.exec(fn.body)
        finally:
            self.frames.pop()
            self.live = saved
            if self.coop:
                self.coop.gone(fr)
        return fr.ret

    def bind(self, fr, d, t, a):
        isref = t.rstrip().endswith("&")
        if isref:
            if isinstance(a, (Cell, LVal)):
                if isinstance(a, LVal) and len(a.alts) == 1:
                    a = a.alts[0][1]
                fr.env[d] = a
            else:
                fr.env[d] = Cell(a)
        else:
            v = self.load(a) if isinstance(a, (Cell, LVal)) else a
            fr.env[d] = cell = Cell(v if self.is_view(v, t) else self.convert(self.copy_as(self.decay(v, t), t), t))
            fr.own[id(cell)] = (cell, self.live)

    def convert(self, v, t):
        t = strip_cvref(t)
        if t.startswith(("Eigen::Matrix<", "Eigen::Array<", "Eigen::SparseMatrix<")) and isinstance(v, Mat):
            m = self.default(t)
            m.pat = v.pat
            if (m.r, m.c) != (v.r, v.c):
                if m.dyn == (False, False):
                    return v
                self.resize(m, v.r, v.c)
            for i in range(v.r):
                for j in range(v.c):
                    m.grid[i][j].v = v.grid[i][j].v
            return m
        if t in FLOATS and isinstance(v, T):
            if v is TRUE or v is FALSE or v.op in ("<", "<=", "==", "and", "not"):
                return ite(v, ONE, ZERO)
        if isinstance(v, Mat) and (v.r, v.c) == (1, 1) and (t in FLOATS or t.startswith("ceres::Jet<")):
            return v.grid[0][0].v
        return v

    def ctor_inits(self, fn, this):
        r = self.F.recs.get(strip_cvref(fn.get("clst", "")))
        done = set()
        for ini in fn.inits:
            if "field" in ini:
                done.add(ini["field"])
                t = fn.types[ini["ft"]]
                cell = this.f.setdefault(ini["field"], Cell())
                if t.rstrip().endswith("&"):
                    lv = self.lval(ini["e"])
                    this.f[ini["field"]] = lv.alts[0][1] if isinstance(lv, LVal) else lv
                    continue
                v = self.eval(ini["e"])
                cell.v = self.init_value(v, t, ini["e"])
            elif "base" in ini:
                e = ini["e"]
                if e is not None:
                    self.construct_into(this, e)
            elif "deleg" in ini:
                self.construct_into(this, ini["e"])

    def decay(self, v, t):
        if isinstance(v, Arr) and strip_cvref(t).rstrip().endswith(("*", "*const")):
            return Ptr(v.reg)
        return v

    VIEWS = ("Eigen::Map<", "Eigen::Block<", "Eigen::VectorBlock<", "Eigen::Ref<", "Eigen::Transpose<", "Eigen::Diagonal<")

    def is_view(self, v, t):
        """copying an Eigen view copies the reference, not the coefficients"""
        return isinstance(v, Mat) and v.view and strip_cvref(t).startswith(self.VIEWS)

    def init_value(self, v, t, e=None):
        if self.is_view(v, t):
            return v
        x = e
        while isinstance(x, dict) and x["k"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            x = x["c"][0]
        if isinstance(v, Obj) and isinstance(x, dict) and x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not x.get("copy") and x.get("u") in self.F.fns and x.get("fq") not in self.hooks and v.cls == strip_cvref(t):
            return v               # constructed in place
        v = self.copy_as(self.decay(v, t), t)
        ts = strip_cvref(t)
        if isinstance(v, list):           # initializer list / aggregate
            return self.aggregate(v, ts)
        return self.convert(v, t)

    def aggregate(self, vals, t):
        if t in INTS or t in FLOATS or t == "bool" or t.endswith("*"):
            return vals[0] if vals else (ZERO if t != "bool" else FALSE)
        d = self.default(t)
        if isinstance(d, _Uninit) and len(vals) < 2 and all(isinstance(x, T) for x in vals):      # an enumeration
            return vals[0] if vals else ZERO
        if isinstance(d, Arr):
            if len(vals) == 1 and isinstance(vals[0], list) and t.startswith("std::array"):
                vals = vals[0]
            if len(vals) == 1 and isinstance(vals[0], Arr) and t.startswith("std::array") and len(vals[0].reg.cells) == len(d.reg.cells):
                return self.copy(vals[0])
            et = None
            m = re.match(r"^([^\[]*)((?:\[\d+\])+)$", t)
            if m:
                dims = re.findall(r"\[\d+\]", m.group(2))
                et = m.group(1).strip() + "".join(dims[1:])
            elif t.startswith("std::array<"):
                et = split_targs(t)[0]
            for i, c in enumerate(d.reg.cells):
                if i < len(vals):
                    x = vals[i]
                    c.v = self.aggregate(x, et) if isinstance(x, list) else self.convert(self.copy_as(self.decay(x, et), et), et)
                elif isinstance(c.v, _Uninit):
                    c.v = FALSE if et == "bool" else (NULL if et.endswith("*") else ZERO)
            return d
        if isinstance(d, Assoc):
            if len(vals) == 1 and isinstance(vals[0], list) and (not d.mp or all(isinstance(x, (list, Obj)) for x in vals[0])):
                vals = vals[0]
            for x in vals:
                self.a_insert(d, self.a_elem(d, x))
            return d
        if isinstance(d, Vec):
            if len(vals) == 1 and isinstance(vals[0], list):
                vals = vals[0]
            d.reg = Region([Cell(self.aggregate(x, d.elem) if isinstance(x, list) else self.copy_as(self.decay(x, d.elem), d.elem)) for x in vals], "vector")
            return d
        if isinstance(d, Obj):
            r = self.F.recs.get(t)
            names = [f["n"] for f in r.h["fields"]] if r else list(d.f)
            for n, x in zip(names, vals):
                ft = r.types[[f for f in r.h["fields"] if f["n"] == n][0]["t"]] if r else ""
                d.f[n] = Cell(self.aggregate(x, strip_cvref(ft)) if isinstance(x, list) else self.convert(self.copy_as(self.decay(x, ft), ft), ft) if ft else self.copy(x))
            return d
        if isinstance(d, Mat):
            if len(vals) == 1 and isinstance(vals[0], Mat):
                return self.convert(vals[0], t)
            if all(isinstance(x, T) for x in vals) and len(vals) == d.r * d.c:
                for c, x in zip(d.cells(), vals):
                    c.v = x
                return d
        raise Unsupported("aggregate initialisation of " + t)

    def construct_into(self, this, e):
        if e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"):
            fn = self.F.fns.get(e.get("u"))
            if fn is None and "__base" in this.f and self.ty(e).startswith(("std::array<", "std::vector<")):
                this.f["__base"].v = self.construct(e, strip_cvref(self.ty(e))) if e["c"] or self.ty(e).startswith("std::vector<") else self.default(strip_cvref(self.ty(e)))
                return
            if fn is None:
                if e.get("copy"):
                    src = self.eval(e["c"][0])
                    if isinstance(src, Obj):
                        for k, c in src.f.items():
                            if k in this.f:
                                this.f[k].v = self.copy(c.v)
                    return
                self.implicit_ctor(this, self.ty(e))
                return
            args = [self.arg(a, fn.types[p["t"]]) for a, p in zip(e["c"], fn.params)]
            self.default_member_inits_partial(this, fn)
            self.call(fn, args, this)
            return
        raise Unsupported("base initialiser " + e["k"])

    def default_member_inits_partial(self, this, fn):
        pass

    def implicit_ctor(self, o, t):
        """The compiler's default constructor: bases, then members."""
        r = self.F.recs.get(strip_cvref(t))
        if not r:
            return
        for b in r.h["bases"]:
            self.run_default_ctor(o, strip_cvref(r.types[b]))
        for f in r.h["fields"]:
            ft = r.types[f["t"]]
            c = o.f.setdefault(f["n"], Cell(self.default(ft)))
            if "e" in f:
                fr = Frame(_RecFrame(r), o)
                self.frames.append(fr)
                try:
                    c.v = self.init_value(self.eval(f["e"]), ft, f["e"])
                finally:
                    self.frames.pop()
            elif isinstance(c.v, Obj):
                self.run_default_ctor(c.v, strip_cvref(ft))

    def run_default_ctor(self, o, t):
        if not hasattr(self.F, "_dctor"):
            self.F._dctor = {}
            for g in self.F.fns.values():
                if g.get("ctor") and len(g.params) == 0:
                    self.F._dctor.setdefault(strip_cvref(g.get("clst", "")), []).append(g)
        for f in self.F._dctor.get(t, ()):
            self.call(f, [], o)
            return
        self.implicit_ctor(o, t)

    def default_member_inits(self, o, t):
        r = self.F.recs.get(strip_cvref(t))
        if not r:
            return
        for b in r.h["bases"]:
            self.default_member_inits(o, r.types[b])
        for f in r.h["fields"]:
            ft = r.types[f["t"]]
            c = o.f.setdefault(f["n"], Cell(self.default(ft)))
            if "e" in f:
                fr = Frame(_RecFrame(r), o)
                self.frames.append(fr)
                try:
                    c.v = self.init_value(self.eval(f["e"]), ft, f["e"])
                finally:
                    self.frames.pop()
            elif isinstance(c.v, Obj) and not c.v.f.get("__done"):
                self.default_member_inits(c.v, ft)

    # ------------------------------------------------------------- statements
    @property
    def fr(self):
        return self.frames[-1]

    def ty(self, n):
        i = n.get("t")
        return self.fr.fn.types[i] if i is not None else ""

    def where(self, n):
        return "%s:%s" % (getattr(self.fr.fn, "f", "?"), n.get("l") if n else "?")

    def exec(self, n):
        if n is None or self.live is FALSE:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step bound")
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m is not None:
            return m(n)
        if k.endswith("Expr") or k.endswith("Operator") or k.endswith("Literal") or k == "ExprWithCleanups":
            self.eval_discard(n)
            return
        raise Unsupported("statement " + k)

    def x_CompoundStmt(self, n):
        k = len(self.fr.locks)
        for s in n["c"]:
            if self.live is FALSE:
                break
            self.exec(s)
        while len(self.fr.locks) > k:
            self.unlock(self.fr.locks.pop())

    def x_NullStmt(self, n):
        pass

    def x_AttributedStmt(self, n):
        for s in n["c"]:
            self.exec(s)

    def x_DeclStmt(self, n):
        for v in n["c"]:
            self.vardecl(v)

    def vardecl(self, v):
        t = self.ty(v)
        fr = self.fr
        init = v["c"][0] if v["c"] else None
        if v.get("bind"):
            x = self.load(self.lval(init)) if init else UNINIT
            self.bindings(v, x)
            return
        if v.get("static"):
            key = (fr.fn.u, v["d"])
            if key in self.globals:
                fr.env[v["d"]] = self.globals[key]
                return
        if v.get("ref"):
            lv = self.lval(init)
            if isinstance(lv, LVal) and len(lv.alts) == 1:
                lv = lv.alts[0][1]
            fr.env[v["d"]] = lv
            return
        if init is None:
            cell = Cell(self.default(t))
        else:
            x = self.eval(init)
            cell = Cell(self.init_value(x, t, init))
            if isinstance(x, Obj) and x.cls.startswith(LOCKS):
                fr.locks.append(cell.v)
        fr.env[v["d"]] = cell
        if not v.get("static"):
            fr.own[id(cell)] = (cell, self.live)
        if v.get("static"):
            self.globals[(fr.fn.u, v["d"])] = cell

    def bindings(self, v, x):
        fr = self.fr
        src = x if v.get("ref") else self.copy(x)
        fr.env[v["d"]] = Cell(src)
        for i, b in enumerate(v["bind"]):
            if isinstance(src, Obj):
                names = list(src.f)
                fr.env[b["d"]] = src.f[names[i]]
            elif isinstance(src, Arr):
                fr.env[b["d"]] = src.reg.cells[i]
            else:
                raise Unsupported("structured binding")

    def cond(self, e):
        v = self.eval(e)
        return self.truth(v)

    def truth(self, v):
        """A condition; with a decider, the side of it that a point takes (one path is then analysed)."""
        q = self.truth_of(v)
        if self.decide is not None and q is not TRUE and q is not FALSE:
            return TRUE if self.decide(q) else FALSE
        return q

    def truth_of(self, v):
        if isinstance(v, T):
            if v.op in ("true", "false", "<", "<=", "==", "not", "and", "s:b"):
                return v
            if tm.isc(v):
                return const(tm.cval(v) != 0)
            if v.op.startswith("f:is") or v.op == "f:signbit":
                return v
            if v.op == "s" and v.a[0].startswith("?"):
                return v
            if v.op == "ite":
                return ite(v.a[0], self.truth_of(v.a[1]), self.truth_of(v.a[2]))
            return lnot(tm.cmp("==", v, ZERO))
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, (Ptr, Opaque, Obj, Arr, Closure, FnRef, Vec, Mat)):
            return TRUE
        if isinstance(v, Phi):
            return ite(v.c, self.truth_of(v.a), self.truth_of(v.b))
        raise Unsupported("condition on %r" % (v,))

    def after(self, p):
        """live predicate for the statement following one entered under p."""
        fr = self.fr
        q = land(p, lnot(fr.returned))
        if fr.loops:
            q = land(land(q, lnot(fr.loops[-1][0])), lnot(fr.loops[-1][1]))
        return q

    def x_IfStmt(self, n):
        init, cv, c, th, el = n["c"]
        if init:
            self.exec(init)
        if cv:
            self.exec(cv)
        if n.get("constexpr") and "cv" in n:
            b = const(bool(n["cv"]))
        else:
            b = self.cond(c)
        p = self.live
        self.live = land(p, b)
        if self.live is not FALSE and not tm.unsat(self.live):
            self.exec(th)
        self.live = land(self.after(p), lnot(b))
        if el is not None and self.live is not FALSE and not tm.unsat(self.live):
            self.exec(el)
        self.live = self.after(p)

    def x_ReturnStmt(self, n):
        fr = self.fr
        e = n["c"][0] if n["c"] else None
        p = self.live
        if e is not None:
            rt = fr.fn.rt
            if rt.rstrip().endswith("&"):
                v = self.lval(e)
                if isinstance(v, LVal) and len(v.alts) == 1:
                    v = v.alts[0][1]
                if isinstance(fr.ret, _Uninit) or p is TRUE:
                    fr.ret = v
                else:
                    fr.ret = Cell(self.gate(p, self.load(v), self.load(fr.ret)))
            else:
                v = self.eval(e)
                v = self.init_value(v, rt, e)
                fr.ret = self.gate(p, v, fr.ret)
        fr.returned = lor(fr.returned, p)
        self.live = FALSE

    def x_BreakStmt(self, n):
        l = self.fr.loops[-1]
        l[0] = lor(l[0], self.live)
        self.live = FALSE

    def x_ContinueStmt(self, n):
        l = self.fr.loops[-1]
        if l[2] == "switch":
            for q in reversed(self.fr.loops):
                if q[2] != "switch":
                    q[1] = lor(q[1], self.live)
                    break
            l[1] = lor(l[1], self.live)
            self.live = FALSE
            return
        l[1] = lor(l[1], self.live)
        self.live = FALSE

    def loop(self, n, cond, body, inc, first=True):
        fr = self.fr
        p = self.live
        st = [FALSE, FALSE, "loop"]   # broken, continued
        fr.loops.append(st)
        it = 0
        try:
            while True:
                st[1] = FALSE
                self.live = land(land(p, lnot(fr.returned)), lnot(st[0]))
                if self.live is FALSE or (it > 0 and tm.unsat(self.live)):
                    break
                if cond is not None and (first or it > 0):
                    b = self.cond(cond)
                    if b is FALSE:
                        break
                    if b is not TRUE:
                        # data-dependent exit: only with a constant-foldable bound
                        if it > 64:
                            raise Unsupported("loop bound not constant at " + self.where(n))
                        st[0] = lor(st[0], land(self.live, lnot(b)))
                        self.live = land(self.live, b)
                        if self.live is FALSE:
                            break
                it += 1
                if it > 20000:
                    raise Unsupported("loop bound")
                self.exec(body)
                if inc is not None:
                    st[1] = FALSE
                    self.live = land(land(p, lnot(fr.returned)), lnot(st[0]))
                    if self.live is not FALSE:
                        self.eval_discard(inc)
        finally:
            fr.loops.pop()
        self.live = self.after(p)

    def x_ForStmt(self, n):
        init, cv, c, inc, body = n["c"]
        if init:
            self.exec(init)
        self.loop(n, c, body, inc)

    def x_WhileStmt(self, n):
        self.loop(n, n["c"][1], n["c"][2], None)

    def x_DoStmt(self, n):
        self.loop(n, n["c"][1], n["c"][0], None, first=False)

    def x_CXXForRangeStmt(self, n):
        init, lv, rng, body = n["c"]
        if init:
            self.exec(init)
        r = self.load(self.lval(rng))
        fr = self.fr
        if isinstance(r, (Arr, Vec)):
            self.sized(r.reg)
            cells = list(r.reg.cells)
        elif isinstance(r, list):
            cells = [Cell(x) for x in r]
        elif isinstance(r, Mat):
            cells = r.cells()
        else:
            raise Unsupported("range %r" % (r,))
        var = lv["c"][0]
        p = self.live
        st = [FALSE, FALSE, "loop"]
        fr.loops.append(st)
        try:
            for c in cells:
                st[1] = FALSE
                self.live = land(land(p, lnot(fr.returned)), lnot(st[0]))
                if self.live is FALSE:
                    break
                if isinstance(r, Assoc) and r.reg.cells != cells:
                    if "absl::" in r.t or c.reg is not r.reg or prev.reg is not r.reg:
                        raise OutOfRange("a container changed while a loop ran over it")
                    raise Unsupported("insertion into a container while a loop runs over it")
                prev = c
                if var.get("bind"):
                    self.bindings(var, self.load(c))
                else:
                    fr.env[var["d"]] = c if var.get("ref") else Cell(self.copy_as(c.v, self.ty(var)))
                self.exec(body)
        finally:
            fr.loops.pop()
        self.live = self.after(p)

    def x_SwitchStmt(self, n):
        init, cv, c, body = n["c"]
        if init:
            self.exec(init)
        if cv:
            self.exec(cv)
        v = self.eval(c)
        fr = self.fr
        p = self.live
        # flatten labels
        items = []     # ("case", [values]|None) or stmt
        def flat(s):
            while s is not None and s["k"] in ("CaseStmt", "DefaultStmt"):
                if s["k"] == "CaseStmt":
                    items.append(("case", self.eval(s["c"][0])))
                    s = s["c"][2]
                else:
                    items.append(("default", None))
                    s = s["c"][0]
            if s is not None:
                items.append(("stmt", s))
        for s in (body["c"] if body["k"] == "CompoundStmt" else [body]):
            flat(s)
        cases = [x[1] for x in items if x[0] == "case"]
        none = TRUE
        for q in cases:
            none = land(none, lnot(tm.lift(lambda a, b: tm.cmp("==", a, b), v, q)))
        st = [FALSE, FALSE, "switch"]
        fr.loops.append(st)
        enter = FALSE
        try:
            for kind, x in items:
                if kind == "case":
                    enter = lor(enter, tm.lift(lambda a, b: tm.cmp("==", a, b), v, x))
                elif kind == "default":
                    enter = lor(enter, none)
                else:
                    self.live = land(self.after(p), enter)
                    if self.live is not FALSE:
                        self.exec(x)
        finally:
            fr.loops.pop()
        self.live = self.after(p)

    def x_CXXTryStmt(self, n):
        self.exec(n["c"][0])

    # ------------------------------------------------------------- expressions
    def eval_discard(self, n):
        k = n["k"]
        if k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CXXOperatorCallExpr", "ConditionalOperator"):
            pass
        self.eval(n)

    def eval(self, n):
        """rvalue"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step bound")
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (k, self.where(n)))
        v = m(n)
        if isinstance(v, (Cell, LVal)):
            v = self.load(v)
        return v

    def lval(self, n):
        """Cell / LVal denoting n (a fresh cell for prvalues)."""
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (k, self.where(n)))
        v = m(n)
        if isinstance(v, (Cell, LVal)):
            return v
        return Cell(v)

    def arg(self, n, ptype):
        if ptype.rstrip().endswith("&"):
            return self.lval(n)
        return self.eval(n)

    # literals
    def e_IntegerLiteral(self, n):
        return const(int(n["v"]))

    def e_FloatingLiteral(self, n):
        s = n.get("src", "")
        mm = re.match(r"^([0-9]*\.?[0-9]*(?:[eE][+-]?[0-9]+)?)[fFlL]?$", s)
        if mm and mm.group(1) and mm.group(1) not in (".",):
            try:
                return const(Fraction(mm.group(1)))
            except ValueError:
                pass
        return const(Fraction(n["v"]))

    def e_CXXBoolLiteralExpr(self, n):
        return TRUE if n["v"] else FALSE

    def e_CharacterLiteral(self, n):
        return const(n["v"])

    def e_StringLiteral(self, n):
        return Opaque("string:" + str(n.get("v")))

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_GNUNullExpr(self, n):
        return NULL

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(self.ty(n))

    def e_CXXScalarValueInitExpr(self, n):
        return self.zero(self.ty(n))

    def zero(self, t):
        t = strip_cvref(t)
        if t == "bool":
            return FALSE
        if t in INTS or t in FLOATS:
            return ZERO
        if t.endswith("*") or t == "std::nullptr_t":
            return NULL
        d = self.default(t)
        if isinstance(d, Arr):
            m = re.match(r"^([^\[]*)((?:\[\d+\])+)$", t)
            et = (m.group(1).strip() + "".join(re.findall(r"\[\d+\]", m.group(2))[1:])) if m else split_targs(t)[0]
            for c in d.reg.cells:
                c.v = self.zero(et)
        elif isinstance(d, Obj):
            self.default_member_inits(d, t)
            r = self.F.recs.get(t)
            if r:
                for f in r.h["fields"]:
                    c = d.f[f["n"]]
                    if isinstance(c.v, _Uninit):
                        c.v = self.zero(r.types[f["t"]])
        return d

    def e_CXXThisExpr(self, n):
        th = self.fr.this
        return th

    def e_DeclRefExpr(self, n):
        dk = n.get("dk")
        if dk in ("parm", "local", "binding", "staticlocal", "global", "other"):
            c = self.find(n["d"])
            if c is not None:
                return c
        if dk == "enumc":
            return const(int(n["v"]))
        if n.get("q") in self.consts:       # a tuning constant the property does not depend on
            return const(self.consts[n["q"]])
        if "cv" in n:
            t = strip_cvref(self.ty(n))
            return (const(bool(n["cv"])) if t == "bool" else const(int(n["cv"])))
        if dk == "global" or dk == "staticlocal" or dk == "other":
            g = self.global_var(n)
            if g is not None:
                return g
        if "cvf" in n:
            return self.fconst(n["cvf"])
        if dk == "func":
            return FnRef(n)
        raise Unsupported("variable %s at %s" % (n.get("n"), self.where(n)))

    def fconst(self, s):
        if s in ("Inf", "+Inf", "inf"):
            return tm.INF
        if s in ("-Inf", "-inf"):
            return tm.NEGINF
        if "nan" in s.lower():
            return tm.NAN
        return const(Fraction(s))

    def global_var(self, n):
        q = n.get("q")
        key = ("g", q)
        if key in self.globals:
            return self.globals[key]
        if q in self.hooks:
            return self.hooks[q]
        for (vq, f, l), h in self.F.vars.items():
            if vq == q and h.get("e") is not None and "type-parameter" not in h["_types"][h["t"]]:
                fr = Frame(_VarFrame(h), None)
                self.frames.append(fr)
                saved = self.live
                self.live = TRUE
                if self.coop:              # before any thread starts
                    self.coop.quiet += 1
                try:
                    v = self.init_value(self.eval(h["e"]), h["_types"][h["t"]])
                    self.globals[key] = Cell(v)
                finally:
                    self.frames.pop()
                    self.live = saved
                    if self.coop:
                        self.coop.quiet -= 1
                return self.globals[key]
        return None

    def find(self, d):
        fr = self.fr
        c = fr.env.get(d)
        if c is None and isinstance(getattr(fr, "outer", None), dict):
            c = fr.outer.get(d)
        return c

    def e_ParenListExpr(self, n):
        return [self.eval(c) for c in n["c"]]

    def e_InitListExpr(self, n):
        t = strip_cvref(self.ty(n))
        vals = []
        for c in n["c"]:
            if c is None:
                continue
            v = self.eval(c)
            vals.append(v)
        if len(vals) == 1 and (t in INTS or t in FLOATS or t == "bool" or t.endswith("*")):
            return vals[0]
        if not vals and (t in INTS or t in FLOATS or t == "bool" or t.endswith("*")):
            return self.zero(t)
        if t.startswith("std::initializer_list") or t == "void":
            return vals
        if len(vals) == 1 and isinstance(vals[0], Obj) and strip_cvref(vals[0].cls) == t:
            return self.copy(vals[0])
        m = re.match(r"^const (.*)$", t)
        if t.endswith("]") and "[" in t and n.get("c") is not None:
            pass
        return self.aggregate(vals, t)

    def e_ArrayInitLoopExpr(self, n):     # copy of a whole array (structured binding, defaulted copy)
        v = self.eval(n["c"][0])
        return self.copy(v)

    def e_CXXDefaultInitExpr(self, n):
        return self.eval(n["c"][0])

    def e_CXXStdInitializerListExpr(self, n):
        return self.eval(n["c"][0])

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if "cv" in n:
            return const(int(n["cv"]))
        raise Unsupported("sizeof")

    def e_TypeTraitExpr(self, n):
        return const(bool(n["cv"]))

    def e_CXXNoexceptExpr(self, n):
        return TRUE

    def e_SizeOfPackExpr(self, n):
        if "cv" in n:
            return const(int(n["cv"]))
        raise Unsupported("sizeof...")

    def e_MemberExpr(self, n):
        if n.get("dk") == "enumc":
            return const(int(n["v"]))
        if n.get("dk") == "static":
            if "cv" in n:
                t = strip_cvref(self.ty(n))
                return const(bool(n["cv"])) if t == "bool" else const(int(n["cv"]))
            if "cvf" in n:
                return self.fconst(n["cvf"])
            g = self.global_var(n)
            if g is not None:
                return g
            raise Unsupported("static member " + n["n"])
        base = n["c"][0]
        b = self.lval(base)
        alts = b.alts if isinstance(b, LVal) else [(TRUE, b)]
        out = []
        for g, c in alts:
            v = c.v
            out += [(land(g, gg), x) for gg, x in self.member_cells(v, n)]
        return LVal(out)

    def member_cells(self, v, n):
        name = n["n"]
        if isinstance(v, Phi):
            A = [] if isinstance(v.a, Null) else self.member_cells(v.a, n)
            B = [] if isinstance(v.b, Null) else self.member_cells(v.b, n)
            return [(land(v.c, g), x) for g, x in A] + [(land(lnot(v.c), g), x) for g, x in B]
        if isinstance(v, Ptr):
            lv = self.deref(v)
            out = []
            for g, c in lv.alts:
                out += [(land(g, gg), x) for gg, x in self.member_cells(c.v, n)]
            return out
        if isinstance(v, Obj):
            if name not in v.f:
                if name == "":
                    return [(TRUE, Cell(v))]
                v.f[name] = Cell(self.default(self.ty(n)) if not self.ty(n).rstrip().endswith("&") else UNINIT)
            return [(TRUE, v.f[name])]
        if isinstance(v, Null):
            if self.live is not TRUE:
                return [(FALSE, Cell())]
            raise OutOfRange("null pointer member access '%s'" % name)
        if isinstance(v, Opaque):
            m = v.methods.get("." + name)
            if m is not None:
                return [(TRUE, m if isinstance(m, Cell) else Cell(m))]
        raise Unsupported("member %s of %r at %s" % (name, v, self.where(n)))

    def e_ArraySubscriptExpr(self, n):
        b = self.eval(n["c"][0])
        i = self.eval(n["c"][1])
        if isinstance(b, T) and isinstance(i, (Ptr, Arr)):
            b, i = i, b
        if isinstance(b, Arr):
            b = Ptr(b.reg)
        return self.deref(b, i, n)

    def e_ConditionalOperator(self, n):
        c = self.cond(n["c"][0])
        p = self.live
        if c is TRUE:
            return self.e_any(n["c"][1])
        if c is FALSE:
            return self.e_any(n["c"][2])
        if self.noreturn(n["c"][2]):
            self.assumed.append(c)
            self.aborts.append(land(p, lnot(c)))
            return self.e_any(n["c"][1])
        if self.noreturn(n["c"][1]):
            self.assumed.append(lnot(c))
            self.aborts.append(land(p, c))
            return self.e_any(n["c"][2])
        if land(p, c) is FALSE:
            return self.e_any(n["c"][2])
        if land(p, lnot(c)) is FALSE:
            return self.e_any(n["c"][1])
        self.live = land(p, c)
        a = self.e_any(n["c"][1])
        self.live = land(p, lnot(c))
        b = self.e_any(n["c"][2])
        self.live = p
        if isinstance(a, (Cell, LVal)) and isinstance(b, (Cell, LVal)):
            A = a.alts if isinstance(a, LVal) else [(TRUE, a)]
            B = b.alts if isinstance(b, LVal) else [(TRUE, b)]
            return LVal([(land(c, g), x) for g, x in A] + [(land(lnot(c), g), x) for g, x in B])
        a = self.load(a) if isinstance(a, (Cell, LVal)) else a
        b = self.load(b) if isinstance(b, (Cell, LVal)) else b
        if a is None or b is None:
            return None
        t = strip_cvref(self.ty(n))
        a = self.convert(a, t)
        b = self.convert(b, t)
        return self.gate(c, a, b)

    def e_any(self, n):
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            raise Unsupported("expression " + n["k"])
        return m(n)

    def noreturn(self, n):
        """does evaluating n always end in a CHECK/LOG(FATAL) failure?"""
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict):
                continue
            if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.get("cls") in ("vf::CheckFail", "vf::FatalMessage"):
                return True
            if x.get("noret"):
                return True
            if x["k"] == "LambdaExpr" or (x["k"] == "ConditionalOperator" and x is not n):
                continue
            st.extend(x.get("c", ()))
        return False

    def e_CXXThrowExpr(self, n):
        self.live = FALSE
        return None

    # operators
    def arith(self, op, a, b, t, n=None):
        if isinstance(a, (Mat,)) or isinstance(b, (Mat,)):
            return self.matop(op, a, b)
        if op in ("==", "!=") and not (isinstance(a, T) and isinstance(b, T)):
            r = self.eqval(a, b)
            return r if op == "==" else lnot(r)
        if isinstance(a, Arr):
            a = Ptr(a.reg)
        if isinstance(b, Arr):
            b = Ptr(b.reg)
        if isinstance(a, Rev) and isinstance(b, T) and op in "+-":
            return Rev(a.reg, tm.lift(tm.sub if op == "+" else tm.add, a.off, b))
        if isinstance(a, Rev) and isinstance(b, Rev) and a.reg is b.reg and op in ("-", "<", "<=", ">", ">="):
            return tm.sub(b.off, a.off) if op == "-" else tm.cmp(op, b.off, a.off)
        if isinstance(a, Null) and b is ZERO and op in "+-":
            return a
        if isinstance(a, Node) and isinstance(b, T) and op in "+-":
            return Node(a.reg, extent(tm.add(a.off, b) if op == "+" else tm.sub(a.off, b), ZERO))
        if isinstance(a, Ptr) and isinstance(b, T):
            if op == "+":
                return Ptr(a.reg, tm.lift(tm.add, a.off, b))
            if op == "-":
                return Ptr(a.reg, tm.lift(tm.sub, a.off, b))
        if isinstance(b, Ptr) and isinstance(a, T) and op == "+":
            return Ptr(b.reg, tm.lift(tm.add, b.off, a))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
            if op == "-":
                return tm.sub(a.off, b.off)
            if op in ("<", "<=", ">", ">="):
                return tm.cmp(op, a.off, b.off)
        if isinstance(a, Obj) and isinstance(b, Obj) and op in ("<", "<=", ">", ">="):      # pointers to them
            return const({"<": int.__lt__, "<=": int.__le__, ">": int.__gt__, ">=": int.__ge__}[op](self.addr_rank(a), self.addr_rank(b)))
        if isinstance(a, Phi):
            return self.gate(a.c, self.arith(op, a.a, b, t, n), self.arith(op, a.b, b, t, n))
        if isinstance(b, Phi):
            return self.gate(b.c, self.arith(op, a, b.a, t, n), self.arith(op, a, b.b, t, n))
        if not (isinstance(a, T) and isinstance(b, T)):
            if isinstance(a, _Uninit) or isinstance(b, _Uninit):
                if self.live is not TRUE:
                    return UNINIT
                raise UninitRead("use of an uninitialised value at " + self.where(n))
            text = lambda v: isinstance(v, Opaque) and v.name.startswith("str") or isinstance(v, Obj) and "basic_string" in v.cls
            if op == "+" and n is not None and (text(a) or text(b) or "basic_string" in self.ty(n)):      # text is not modelled
                return Opaque("str")
            raise Unsupported("operator %s on %r, %r at %s" % (op, a, b, self.where(n)))
        isint = t in INTS
        if t == "bool" and op in ("&", "|", "^"):
            a, b = self.truth(a), self.truth(b)
            return {"&": land(a, b), "|": lor(a, b), "^": lor(land(a, lnot(b)), land(b, lnot(a)))}[op]
        if a.op in ("true", "false", "<", "<=", "==", "not", "and") and op in "+-*/":
            a = ite(a, ONE, ZERO)
        if b.op in ("true", "false", "<", "<=", "==", "not", "and") and op in "+-*/":
            b = ite(b, ONE, ZERO)
        f = {"+": tm.add, "-": tm.sub, "*": tm.mul, "/": (tm.idiv if isint else tm.div), "%": tm.imod}.get(op)
        if f:
            r = tm.lift(f, a, b) if isint else f(a, b)
            if t in ("int", "long", "unsigned int") and self.intlog is not None:       # for range checks
                self.intlog.append((self.live, r, {"int": 31, "long": 63, "unsigned int": 32}[t], self.where(n) if n is not None else ""))
            return r
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if op in ("==", "!=") and (a.op in ("true", "false", "not", "and") or b.op in ("true", "false", "not", "and")):
                x, y = self.truth(a), self.truth(b)
                r = lor(land(x, y), land(lnot(x), lnot(y)))
                return r if op == "==" else lnot(r)
            if tm.tree(a) and tm.tree(b):
                return tm.lift(lambda x, y: tm.cmp(op, x, y), a, b)
            return tm.cmp(op, a, b)
        if op in ("<<", ">>", "&", "|", "^") and tm.isc(a) and tm.isc(b):
            x, y = int(tm.cval(a)), int(tm.cval(b))
            if op in ("<<", ">>"):
                if y < 0 or y > 63:
                    raise Unsupported("shift by %d" % y)
                return const(x << y if op == "<<" else x >> y)
            return const(x & y if op == "&" else x | y if op == "|" else x ^ y)
        raise Unsupported("operator " + op)

    def eqval(self, a, b):
        if isinstance(a, Phi):
            return ite(a.c, self.eqval(a.a, b), self.eqval(a.b, b))
        if isinstance(b, Phi):
            return self.eqval(b, a)
        if isinstance(a, Null) or isinstance(b, Null):
            if isinstance(a, T) or isinstance(b, T):
                raise Unsupported("pointer comparison %r %r" % (a, b))
            return const(isinstance(a, Null) and isinstance(b, Null))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is b.reg:
                return tm.cmp("==", a.off, b.off)
            return FALSE
        if isinstance(a, (Opaque, Obj, Arr)) or isinstance(b, (Opaque, Obj, Arr)):
            return const(a is b)
        if isinstance(a, T) and isinstance(b, T):
            return tm.cmp("==", a, b)
        raise Unsupported("equality of %r, %r" % (a, b))

    def e_BinaryOperator(self, n):
        op = n["op"]
        x, y = n["c"]
        if op == "&&":
            a = self.cond(x)
            if a is FALSE:
                return FALSE
            if self.noreturn(y):
                self.assumed.append(lnot(a))
                self.aborts.append(land(self.live, a))
                return FALSE
            p = self.live
            self.live = land(p, a)
            b = self.cond(y) if self.live is not FALSE else FALSE
            self.live = p
            return land(a, b)
        if op == "||":
            a = self.cond(x)
            if a is TRUE:
                return TRUE
            p = self.live
            self.live = land(p, lnot(a))
            b = self.cond(y) if self.live is not FALSE else FALSE
            self.live = p
            return lor(a, b)
        if op == ",":
            self.eval(x)
            return self.e_any(y)
        if op == "=":
            v = self.eval(y)
            lv = self.lval(x)
            v = self.convert(self.copy_as(v, self.ty(x)), self.ty(x))
            self.store(lv, v, self.pointer_type(self.ty(x)))
            return lv
        a = self.eval(x)
        b = self.eval(y)
        t = strip_cvref(self.ty(n))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            t = strip_cvref(self.ty(x))
        return self.arith(op, a, b, t, n)

    def e_CompoundAssignOperator(self, n):
        x, y = n["c"]
        b = self.eval(y)
        lv = self.lval(x)
        a = self.load(lv)
        tx, tyy = strip_cvref(self.ty(x)), strip_cvref(self.ty(y))
        t = tx if not (tx in INTS and tyy in FLOATS) else tyy
        r = self.arith(n["op"][:-1], a, b, t, n)
        if tx in INTS and tyy in FLOATS and isinstance(r, T):
            r = tm.fun("trunc", r)
        self.store(lv, r)
        return lv

    def e_UnaryOperator(self, n):
        op = n["op"]
        x = n["c"][0]
        if op == "&":
            if x["k"] == "DeclRefExpr" and x.get("dk") == "func":
                return FnRef(x)
            return self.addr(self.lval(x))
        if op == "*":
            v = self.eval(x)
            return self.deref(v, ZERO, n)
        if op in ("++", "--"):
            lv = self.lval(x)
            a = self.load(lv)
            t = strip_cvref(self.ty(x))
            if n.get("post") and isinstance(a, (Obj, Mat)):
                a = self.copy(a)
            r = self.arith("+" if op == "++" else "-", a, ONE, t, n)
            self.store(lv, r)
            return a if n.get("post") else lv
        v = self.eval(x)
        if op == "!":
            return lnot(self.truth(v))
        if op == "-":
            if isinstance(v, Mat):
                return self.mapmat(v, tm.neg)
            if isinstance(v, T):
                return tm.lift(tm.neg, v) if strip_cvref(self.ty(n)) in INTS else tm.neg(v)
        if op == "+":
            return v
        if op == "~" and isinstance(v, T) and tm.isc(v):
            return const(~int(tm.cval(v)))
        raise Unsupported("unary %s on %r" % (op, v))

    # casts
    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    def derives(self, cls, base):
        work = [cls]
        while work:
            c = work.pop()
            if c == base:
                return True
            r = self.F.recs.get(c)
            if r is not None:
                work += [strip_cvref(r.types[b]) for b in r.h["bases"]]
        return False

    def narrow(self, v, bits, signed):
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        if tm.isc(v):
            k = int(tm.cval(v))
            return v if lo <= k <= hi else const((k - lo) % (1 << bits) + lo)
        return tm.fun("wrap", v, const(lo), const(1 << bits))

    def cast(self, n):
        ck = n.get("ck")
        x = n["c"][0]
        if ck in ("LValueToRValue", "NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "Dynamic", "ArrayToPointerDecay", "FunctionToPointerDecay"):
            v = self.e_any(x)
            if ck == "Dynamic" and self.ty(n).rstrip().endswith("*"):
                v = self.load(v) if isinstance(v, (Cell, LVal)) else v
                if isinstance(v, Obj) and strip_cvref(v.cls) in self.F.recs:
                    return v if self.derives(strip_cvref(v.cls), strip_cvref(strip_cvref(self.ty(n)).rstrip("* "))) else NULL
            if ck == "ArrayToPointerDecay":
                v = self.load(v) if isinstance(v, (Cell, LVal)) else v
                if isinstance(v, Arr):
                    return Ptr(v.reg)
            if ck in ("ConstructorConversion", "UserDefinedConversion"):
                v = self.load(v) if isinstance(v, (Cell, LVal)) else v
                return self.convert(v, self.ty(n))
            return v
        v = self.eval(x)
        t = strip_cvref(self.ty(n))
        if ck == "FloatingToIntegral":
            if isinstance(v, T):
                return tm.fun("trunc", v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(v)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "BooleanToSignedIntegral"):
            if isinstance(v, T):
                if v.op in ("true", "false", "<", "<=", "==", "not", "and"):
                    return ite(v, ONE, ZERO)
                if ck == "IntegralCast" and t in NARROW:
                    return self.narrow(v, *NARROW[t])
                return v
        if ck == "ToVoid":
            return None
        if ck in ("BitCast", "NullToPointer"):
            return v if not (isinstance(v, T)) else NULL
        if isinstance(v, T):
            return v
        raise Unsupported("cast %s" % ck)

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = cast
    e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_BuiltinBitCastExpr = cast

    # lambdas
    def e_LambdaExpr(self, n):
        cl = Closure(n, None, self.fr.this, self.fr.fn)
        env = {}
        outer = self.fr
        for cp in n.get("caps", ()):
            if cp.get("this"):
                continue
            d = cp.get("d")
            if d is None:
                continue
            c = self.find(d)
            if c is None:
                continue
            t = strip_cvref(self.fr.fn.types[cp["t"]]) if "t" in cp else ""
            ptr = t.endswith("*") or t.startswith(("std::unique_ptr<", "std::shared_ptr<", "std::reference_wrapper<"))
            env[d] = c if cp.get("ref") else Cell(self.load(c) if ptr else self.copy(self.load(c)))
        # constants of the enclosing function may be used without capture
        cl.env = env
        cl.caps = outer
        return cl

    def call_closure(self, cl, args, u=None):
        n = cl.node
        fn = self.F.fns.get(n.get("u"))
        params, body, rt = n["params"], n["c"][0], None
        if n.get("generic"):
            inst = [x for x in n.get("insts") or () if x["u"] == u] or (n.get("insts") if len(n.get("insts") or ()) == 1 else None)
            if not inst:
                raise Unsupported("generic lambda without a matching instantiation")
            params, body, rt = inst[0]["params"], inst[0]["body"], inst[0]["rt"]
        f2 = _LambdaFrame(cl.fn, n, fn)
        if rt is not None:
            f2.rt = cl.fn.types[rt] if isinstance(rt, int) else rt
        fr = Frame(f2, cl.this)
        fr.env.update(cl.env)
        fr.outer = {**getattr(cl.caps, "outer", {}), **cl.caps.env}
        saved = self.live
        self.frames.append(fr)
        try:
            for p, a in zip(params, args):
                self.bind(fr, p["d"], cl.fn.types[p["t"]], a)
            self.exec(body)
        finally:
            self.frames.pop()
            self.live = saved
        return fr.ret

    # construction
    def e_CXXConstructExpr(self, n):
        t = strip_cvref(self.ty(n))
        return self.construct(n, t)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, t):
        fn = self.F.fns.get(n.get("u"))
        h = self.hooks.get(n.get("fq"))
        args = n["c"]
        if h is not None:
            return h(self, None, [self.e_any(a) for a in args if a is not None], n)
        if n.get("cls") in ("vf::CheckFail", "vf::FatalMessage"):
            self.aborts.append(self.live)
        if fn is not None and t.endswith("]"):
            d = self.default(t)

            def elems(a):
                for c in a.reg.cells:
                    if isinstance(c.v, Arr):
                        elems(c.v)
                    else:
                        av = [self.arg(x, fn.types[p["t"]]) for x, p in zip(args, fn.params)]
                        self.call(fn, av, c.v)
            elems(d)
            return d
        if fn is not None:
            o = Obj(t)
            r = self.F.recs.get(t)
            if r:
                self.init_fields(o, r)
            av = [self.arg(a, fn.types[p["t"]]) for a, p in zip(args, fn.params)]
            self.call(fn, av, o)
            return o
        if n.get("copy") and args:
            v = self.eval(args[0])
            return self.convert(self.copy_as(v, t), t)
        if re.match(r"^(const )?[^\[]*\[\d+\]$", t) or re.match(r".*\]$", t):
            # array of class type, default constructed
            d = self.default(t)
            return d
        if t.startswith("Eigen::"):
            return self.eigen_construct(n, t, args)
        if t.startswith(("std::vector<", "std::list<", "std::__cxx11::list<", "std::deque<", "std::queue<")):
            et = split_targs(t)[0]
            av = [self.eval(a) for a in args]
            av = [a for a in av if not (isinstance(a, Obj) and "allocator" in a.cls)]
            if not av:
                return self.default(t)
            if isinstance(av[0], list):
                return self.aggregate(av[0], t)
            if isinstance(av[0], Arr):
                return Vec(Region([Cell(self.copy_as(self.decay(c.v, et), et)) for c in av[0].reg.cells], "vector"), et)
            if isinstance(av[0], T) and tm.isc(av[0]):
                k = int(tm.cval(av[0]))
                return Vec(Region([Cell(self.copy(av[1]) if len(av) > 1 else self.zero(et)) for _ in range(k)], "vector"), et)
            if isinstance(av[0], Ptr) and isinstance(av[1], Ptr):
                k = extent(av[1].off, av[0].off)
                o = int(tm.cval(av[0].off))
                return Vec(Region([Cell(self.copy_as(self.region_at(av[0].reg, o + i).v, et)) for i in range(k)], "vector"), et)
        if t.startswith(ASSOC):
            av = [self.eval(a) for a in args if a is not None]
            av = [a for a in av if not (isinstance(a, Obj) and ("allocator" in a.cls or "std::less" in a.cls or "ash<" in a.cls or "equal_to" in a.cls))]
            m = Assoc(t)
            if not av:
                return m
            if isinstance(av[0], Assoc) and len(av) == 1:
                return self.copy(av[0])
            if isinstance(av[0], Arr):
                av[0] = [c.v for c in av[0].reg.cells]
            if isinstance(av[0], list):
                for x in av[0]:
                    self.a_insert(m, self.a_elem(m, x))
                return m
            if len(av) >= 2 and isinstance(av[0], Ptr) and isinstance(av[1], Ptr):
                self.a_range(m, av[0], av[1])
                return m
            if isinstance(av[0], T):
                return m
        if t.startswith(("std::unique_ptr<", "std::shared_ptr<", "std::reference_wrapper<")):
            av = [self.e_any(a) for a in args]
            if not av:
                return NULL
            if t.startswith("std::reference_wrapper<"):
                return av[0]
            return self.load(av[0]) if isinstance(av[0], (Cell, LVal)) else av[0]
        if t.startswith("std::function<"):
            return self.eval(args[0]) if args else NULL
        if t.startswith("std::atomic<"):           # one thread of control: an atomic is a plain cell
            return self.convert(self.eval(args[0]), split_targs(t)[0]) if args else self.zero(split_targs(t)[0])
        if t.startswith(SYNC):                     # one thread of control: locks are always free
            av = [self.e_any(a) for a in args]
            o = Obj(t)
            if t.startswith(LOCKS) and av:
                m = self.load(av[0]) if isinstance(av[0], (Cell, LVal)) else av[0]
                if isinstance(m, Obj) and m.cls.startswith(LOCKS):
                    return m
                o.f = {"mutex": Cell(Handle(m)), "held": Cell(TRUE)}
                if self.coop and isinstance(m, Obj):
                    self.coop.lock(m)
            return o
        if t.startswith("std::thread"):
            return self.thread(args)
        if t.startswith("std::basic_string"):      # text is not modelled
            for a in args:
                if a is not None:
                    self.e_any(a)
            o = Obj(t)
            if any(a is not None for a in args):
                o.f["used"] = Cell(TRUE)
            return o
        if t.startswith(("std::pair<", "std::tuple<")):
            av = [self.eval(a) for a in args]
            d = self.default(t)
            for c, x in zip(d.f.values(), av):
                c.v = self.copy(x)
            return d
        if not args or n.get("defctor"):
            d = self.default(t)
            if isinstance(d, Obj):
                self.implicit_ctor(d, t)
            return d
        if len(args) == 1:
            v = self.eval(args[0])
            if isinstance(v, Obj):
                return self.copy(v)
            if isinstance(v, Ptr) and t.startswith("__gnu_cxx::__normal_iterator<"):
                return v
        raise Unsupported("constructor of %s at %s" % (t, self.where(n)))

    def e_CXXNewExpr(self, n):
        t = self.fr.fn.types[n["nt"]]
        size, init = n["c"]
        if n.get("array"):
            k = self.eval(size)
            if not tm.isc(k):
                raise Unsupported("new[] size")
            if tm.cval(k) > 4000000:
                raise Unsupported("an array of %d elements" % tm.cval(k))
            return Ptr(Region([Cell(self.default(t)) for _ in range(int(tm.cval(k)))], "heap"))
        if init is not None and init["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            v = self.construct(init, strip_cvref(t))
        elif init is not None:
            v = self.init_value(self.eval(init), t)
        else:
            v = self.default(t)
        return v if isinstance(v, (Obj, Opaque)) else Ptr(Region([Cell(v)], "heap"))

    def e_CXXDeleteExpr(self, n):
        v = self.eval(n["c"][0])
        if self.deletes is not None:
            v = self.resolve(v)
            if isinstance(v, Obj):
                self.destroy(v)
            elif not isinstance(v, (Null, Ptr)):
                raise Unsupported("delete of %r" % (v,))
        return None

    def destroy(self, v):
        """The end of an object, where the objects deleted are followed."""
        if self.live is not TRUE:
            raise Unsupported("conditional delete")
        if v.dead:
            raise OutOfRange("a %s is deleted twice" % v.cls)
        fn = self.dtor_of(v.cls)
        if fn is not None and fn.body is not None:
            self.call(fn, [], v)
        r = self.F.recs.get(v.cls)
        for f in (r.h["fields"] if r else []):
            x = v.f.get(f["n"])
            if x is not None and strip_cvref(r.types[f["t"]]).startswith("std::unique_ptr<") and isinstance(x.v, Obj) and not x.v.dead:
                self.destroy(x.v)
        v.dead = True
        self.deletes.append(v)

    def dtor_of(self, cls):
        if self.dtors is None:
            self.dtors = {strip_cvref(f.get("clst", "")): f for f in self.F.fns.values() if f.get("dtor")}
        return self.dtors.get(cls)

    # ------------------------------------------------------------- calls
    def e_CallExpr(self, n):
        fq = n.get("fq")
        callee = n["c"][0]
        args = n["c"][1:]
        if fq is None:
            v = self.eval(callee)
            if isinstance(v, FnRef):
                fn = self.F.fns.get(v.node.get("u"))
                if fn:
                    return self.call(fn, [self.arg(a, fn.types[p["t"]]) for a, p in zip(args, fn.params)])
                return self.std_call(v.node["fq"], args, n)
            if isinstance(v, Closure):
                return self.call_closure(v, [self.e_any(a) for a in args])
            raise Unsupported("indirect call at " + self.where(n))
        h = self.hooks.get(fq)
        if h is not None:
            return h(self, None, [self.e_any(a) for a in args], n)
        fn = self.F.fns.get(n.get("u"))
        if fn is not None:
            return self.call(fn, [self.arg(a, fn.types[p["t"]]) for a, p in zip(args, fn.params)], None)
        return self.std_call(fq, args, n)

    def e_UserDefinedLiteral(self, n):
        raise Unsupported("user-defined literal")

    def dispatch_virtual(self, n, obj):
        """final overrider of the called method for the object's class."""
        u = n.get("u")
        cls = strip_cvref(obj.cls)
        seen = set()
        cand = [f for f in self.F.overriders.get(u, ()) if strip_cvref(f.get("clst", "")) == cls]
        if cand:
            return cand[0]
        # walk up the bases of cls
        work = [cls]
        while work:
            c = work.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for f in self.F.overriders.get(u, ()):
                if strip_cvref(f.get("clst", "")) == c:
                    return f
            base = self.F.fns.get(u)
            if base is not None and strip_cvref(base.get("clst", "")) == c:
                return base
            r = self.F.recs.get(c)
            if r:
                work += [strip_cvref(r.types[b]) for b in r.h["bases"]]
        return self.F.fns.get(u)

    def e_CXXMemberCallExpr(self, n):
        callee = n["c"][0]
        args = n["c"][1:]
        fq = n.get("fq", "")
        if callee["k"] != "MemberExpr":
            raise Unsupported("member call through pointer")
        base = self.lval(callee["c"][0])
        if self.coop and fq.startswith(("std::atomic", "std::__atomic_base")):
            self.coop.quiet += 1
            try:
                recv = self.load(base)
            finally:
                self.coop.quiet -= 1
        else:
            recv = self.load(base)
        name = callee["n"]
        if re.match(r"^std::(__\d+::)?(unique|shared|__shared)_ptr", fq) and not callee.get("arrow") and isinstance(recv, (Ptr, Phi, Null)):
            recv = self.load(base)
            if name == "operator bool":
                return self.truth(recv)
            if name == "get":
                return recv
            if name in ("release", "reset"):
                v = self.eval(args[0]) if args else NULL
                self.events.append(("release" if name == "release" else "delete", self.live, recv))
                self.store(base, v)
                return recv if name == "release" else None
        if isinstance(recv, Ptr):
            base = self.deref(recv)
            recv = self.load(base)
        if isinstance(recv, Obj) and "__base" in recv.f and n.get("u") not in self.F.fns:
            base = recv.f["__base"]
            recv = base.v
        if isinstance(recv, Phi):
            if isinstance(recv.a, Null):
                recv = recv.b
            elif isinstance(recv.b, Null):
                recv = recv.a
        if isinstance(recv, Phi) and self.hooks.get(fq) is None:
            return self.split(recv, lambda r: self.member_call(n, args, fq, name, Cell(r), r))
        return self.member_call(n, args, fq, name, base, recv)

    def split(self, v, f):
        """f on each reachable alternative of a gated value."""
        alts = []

        def walk(q, c):
            if isinstance(q, Phi):
                walk(q.a, land(c, q.c))
                walk(q.b, land(c, lnot(q.c)))
            elif c is not FALSE and not tm.unsat(land(self.live, c)):
                alts.append((c, q))
        walk(v, TRUE)
        if not alts:
            return UNINIT
        p, out = self.live, []
        try:
            for c, q in alts:
                self.live = land(p, c) if len(alts) > 1 else p
                out.append((c, f(q)))
        finally:
            self.live = p
        if len(out) == 1:
            return out[0][1]
        if all(isinstance(r, (Cell, LVal)) for _, r in out):
            return LVal([(land(c, g), x) for c, r in out for g, x in (r.alts if isinstance(r, LVal) else [(TRUE, r)])])
        if all(r is None for _, r in out):
            return None
        out = [(c, self.load(r) if isinstance(r, (Cell, LVal)) else r) for c, r in out]
        r = out[-1][1]
        for c, q in reversed(out[:-1]):
            r = self.gate(c, q, r)
        return r

    def member_call(self, n, args, fq, name, base, recv):
        h = self.hooks.get(fq)
        if h is not None:
            return h(self, recv, [self.e_any(a) for a in args], n)
        if re.match(r"^std::(__\d+::)?(unique|shared|__shared)_ptr", fq) and name in ("get", "release", "reset"):
            if name == "release":
                self.events.append(("release", self.live, recv))
                self.store(base, NULL)
                return recv
            if name == "reset":
                v = self.eval(args[0]) if args else NULL
                self.events.append(("delete", self.live, recv))
                self.store(base, v, True)
                return None
            return recv
        if isinstance(recv, Opaque):
            if name in ("empty", "size", "length") and recv.name.startswith("string:"):
                k = len(recv.name) - 7
                return const(k) if name != "empty" else FALSE if k else TRUE
            m = recv.methods.get(name)
            if m is None:
                raise Unsupported("method %s of opaque %s" % (name, recv.name))
            return m(self, [self.e_any(a) for a in args], n)
        fn = None
        if isinstance(recv, Obj):
            fn = self.F.fns.get(n.get("u"))
            if n.get("virt") and not n.get("qual"):
                fn = self.dispatch_virtual(n, recv) or fn
        elif isinstance(recv, Phi):
            raise Unsupported("call on gated object")
        if fn is not None:
            return self.call(fn, [self.arg(a, fn.types[p["t"]]) for a, p in zip(args, fn.params)], recv)
        if isinstance(recv, Mat):
            return self.eigen_member(recv, name, args, n, base)
        if isinstance(recv, Tri):
            return self.tri_member(recv, name, args, n)
        if isinstance(recv, Dec):
            return self.dec_member(recv, name, args, n, base)
        if isinstance(recv, VW):
            m = recv.m
            parts = [self.block(m, 0, j, m.r, 1) for j in range(m.c)] if recv.col else [self.block(m, i, 0, 1, m.c) for i in range(m.r)]
            v = [self.eigen_member(q, name, args, n, Cell(q)) for q in parts]
            return self.matfrom([v] if recv.col else [[x] for x in v])
        if isinstance(recv, Closure):
            return self.call_closure(recv, [self.e_any(a) for a in args])
        if name in ("get", "release") and isinstance(recv, (Obj, Opaque, Ptr, Null, Phi)) and "unique_ptr" in fq + str(n.get("cls")):
            if name == "release":
                self.store(base, NULL)
            return recv
        return self.std_member(recv, name, args, n, base)

    def e_CXXOperatorCallExpr(self, n):
        op = n["op"]
        fq = n.get("fq", "")
        args = n["c"]
        h = self.hooks.get(fq)
        if h is not None:
            return h(self, None, [self.e_any(a) for a in args], n)
        if self.coop and fq.startswith(("std::atomic", "std::__atomic_base")):
            base = self.lval(args[0])
            return self.atomic_op("operator" + op, args[1:], base, n)
        fn = self.F.fns.get(n.get("u"))
        if fn is not None and fn.get("lambda"):
            fn = None
        if fn is not None:
            if fn.get("cls") is not None and not fn.get("sm"):
                th = self.eval(args[0])
                if isinstance(th, Obj):
                    if n.get("virt"):
                        fn = self.dispatch_virtual(n, th) or fn
                    return self.call(fn, [self.arg(a, fn.types[p["t"]]) for a, p in zip(args[1:], fn.params)], th)
                if isinstance(th, Opaque):
                    m = th.methods.get("operator" + op)
                    if m:
                        return m(self, [self.e_any(a) for a in args[1:]], n)
            else:
                return self.call(fn, [self.arg(a, fn.types[p["t"]]) for a, p in zip(args, fn.params)])
        if op == "=":
            v = self.eval(args[1])
            lv = self.lval(args[0])
            v = self.init_value(v, self.ty(args[0])) if not (isinstance(v, list)) else v
            cur = self.load(lv)
            if isinstance(cur, Tri):
                self.tri_assign(cur, v)
                return lv
            v = self.full(v)
            if isinstance(cur, Mat):
                if isinstance(v, T):
                    v = self.matfrom([[v]])
                self.assign_into(cur, v)
                return lv
            self.store(lv, v, self.pointer_type(self.ty(args[0])))
            return lv
        if op in ("+=", "-=", "*=", "/="):
            lv = self.lval(args[0])
            a = self.load(lv)
            b = self.eval(args[1])
            if isinstance(a, Tri):
                if op[0] in "+-":
                    self.tri_assign(a, b, op[0])
                else:
                    self.tri_assign(a, self.matop(op[0], a.m, b))
                return lv
            if isinstance(a, Mat):
                r = self.matop(op[0], a, b, inplace=True)
                self.assign_into(a, r)
                return lv
            r = self.arith(op[0], a, b, strip_cvref(self.ty(args[0])), n)
            self.store(lv, r)
            return lv
        if op == "()":
            b = self.load(self.lval(args[0]))
            if isinstance(b, Ptr):
                b = self.load(self.deref(b))
            if isinstance(b, Closure):
                return self.call_closure(b, [self.e_any(a) for a in args[1:]], n.get("u"))
            if isinstance(b, FnRef):
                f2 = self.F.fns.get(b.node.get("u"))
                if f2:
                    return self.call(f2, [self.arg(a, f2.types[p["t"]]) for a, p in zip(args[1:], f2.params)])
                return self.std_call(b.node["fq"], args[1:], n)
            if isinstance(b, Opaque):
                m = b.methods.get("operator()")
                if m:
                    return m(self, [self.e_any(a) for a in args[1:]], n)
            if isinstance(b, Mat):
                return self.coeff(b, args[1:])
            def mats(q):
                return mats(q.a) and mats(q.b) if isinstance(q, Phi) else isinstance(q, Mat)
            if isinstance(b, Phi) and mats(b):
                return self.split(b, lambda q: self.coeff(q, args[1:]))
            if isinstance(b, Obj):
                f2 = self.dispatch_virtual(n, b) if n.get("virt") else None
                if f2 is not None:
                    return self.call(f2, [self.arg(a, f2.types[p["t"]]) for a, p in zip(args[1:], f2.params)], b)
                m = re.match(r"std::integral_constant<.*, (-?\d+|true|false)>$", strip_cvref(b.cls))
                if m:
                    return {"true": TRUE, "false": FALSE}.get(m.group(1)) or const(int(m.group(1)))
                raise Unsupported("call operator of %r" % (b,))
        if op == "[]":
            b = self.load(self.lval(args[0]))
            if isinstance(b, Obj) and "__base" in b.f:
                b = b.f["__base"].v
            if isinstance(b, Mat):
                return self.coeff(b, args[1:])
            i = self.eval(args[1])
            if isinstance(b, Assoc):
                return self.a_index(b, i)
            if isinstance(b, (Vec, Arr)):
                return LVal(self.region_cells(b.reg, i))
            if isinstance(b, (Ptr, Phi)):
                return self.deref(b, i)
        if op == "*" and len(args) == 1:
            b = self.eval(args[0])
            return self.deref(b)
        if op == "->":
            return self.eval(args[0])
        if op == "<<":
            b = self.lval(args[0])
            v = self.load(b)
            if isinstance(v, Mat):
                return self.comma_init(v, args[1])
            if isinstance(v, _CommaInit):
                v.push(self, self.eval(args[1]))
                return v
            self.eval(args[1]) if False else None
            return Opaque("ostream")
        if op == ",":
            v = self.eval(args[0])
            if isinstance(v, _CommaInit):
                v.push(self, self.eval(args[1]))
                return v
        if op == "!" or (op == "-" and len(args) == 1):
            v = self.eval(args[0])
            if isinstance(v, Mat):
                return self.mapmat(v, self.sneg)
        if op in ("++", "--"):
            lv = self.lval(args[0])
            a = self.load(lv)
            r = self.arith("+" if op == "++" else "-", a, ONE, "long", n)
            self.store(lv, r)
            return a if len(args) > 1 else lv
        if len(args) == 2:
            a = self.eval(args[0])
            b = self.eval(args[1])
            if isinstance(a, (Mat, Tri)) or isinstance(b, (Mat, Tri)):
                return self.matop(op, a, b)
            return self.arith(op, a, b, "", n)
        raise Unsupported("operator %s at %s" % (op, self.where(n)))

    def e_CXXDefaultArgExpr(self, n):
        return self.eval(n["c"][0])

    def e_CXXPseudoDestructorExpr(self, n):
        return None

    def e_StmtExpr(self, n):
        body = n["c"][0]
        v = None
        for s in body["c"][:-1]:
            self.exec(s)
        return self.e_any(body["c"][-1])

    def e_PredefinedExpr(self, n):
        return Opaque("str")

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.e_any(n["c"][0])

    # ------------------------------------------------------------- scalars ops generic over Jet
    def sadd(self, a, b):
        return self.sop("+", a, b)

    def smul(self, a, b):
        return self.sop("*", a, b)

    def sneg(self, a):
        if isinstance(a, T):
            return tm.neg(a)
        return self.struct_unop("-", a)

    def sop(self, op, a, b):
        if isinstance(a, _Uninit) or isinstance(b, _Uninit):
            if self.live is not TRUE:
                return UNINIT
            raise UninitRead("use of an uninitialised coefficient")
        if isinstance(a, T) and isinstance(b, T):
            return {"+": tm.add, "-": tm.sub, "*": tm.mul, "/": tm.div}[op](a, b)
        return self.struct_binop(op, a, b)

    def find_op(self, op, types):
        key = ("op", op, tuple(types))
        if key in self.globals:
            return self.globals[key]
        for f in self.F.by_n.get("operator" + op, ()):
            ps = [strip_cvref(f.types[p["t"]]) for p in f.params]
            if ps == list(types) and not f.get("cls"):
                self.globals[key] = f
                return f
        return None

    def vtype(self, v):
        if isinstance(v, T):
            return "double"
        if isinstance(v, Obj):
            return strip_cvref(v.cls)
        return "?"

    def struct_binop(self, op, a, b):
        ta, tb = self.vtype(a), self.vtype(b)
        f = self.find_op(op, (ta, tb))
        if f:
            return self.call(f, [a, b])
        # promote the scalar to the struct through its one-argument constructor
        if ta == "double" and isinstance(b, Obj):
            return self.struct_binop(op, self.promote(a, tb), b)
        if tb == "double" and isinstance(a, Obj):
            return self.struct_binop(op, a, self.promote(b, ta))
        raise Unsupported("no operator%s(%s, %s) instantiated" % (op, ta, tb))

    def promote(self, s, t):
        r = self.F.recs.get(t)
        if r is None or "Jet<" not in t:
            raise Unsupported("promotion to " + t)
        o = Obj(t)
        self.init_fields(o, r)
        o.f["a"].v = s if not split_targs(t)[0].startswith("ceres::Jet") else self.promote(s, split_targs(t)[0])
        for c in o.f["v"].v.cells():
            c.v = ZERO if not split_targs(t)[0].startswith("ceres::Jet") else self.promote(ZERO, split_targs(t)[0])
        return o

    def struct_unop(self, op, a):
        ta = self.vtype(a)
        f = self.find_op(op, (ta,))
        if f:
            return self.call(f, [a])
        if op == "-":
            return self.struct_binop("-", self.promote(ZERO, ta), a)
        raise Unsupported("unary %s on %s" % (op, ta))

    def sfun(self, name, v):
        """mathematical function on a coefficient (double or Jet)."""
        if isinstance(v, T):
            return tm.fun(name, v)
        ta = self.vtype(v)
        for f in self.F.by_n.get(name, ()):
            ps = [strip_cvref(f.types[p["t"]]) for p in f.params]
            if ps == [ta]:
                return self.call(f, [v])
        raise Unsupported("function %s(%s)" % (name, ta))

    def mapmat(self, m, f):
        return self.matfrom([[f(x) for x in row] for row in m.vals()], arr=m.arr)

    # matrix algebra
    def matop(self, op, a, b, inplace=False):
        a, b = self.full(a), self.full(b)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in ("+", "-"):
                if inplace and (a.r, a.c) == (b.c, b.r) and 1 in (a.r, a.c):      # a row vector is added to a column
                    b = self.matfrom([[b.grid[j][i].v for j in range(b.r)] for i in range(b.c)], arr=b.arr)
                if (a.r, a.c) != (b.r, b.c):
                    raise OutOfRange("shape mismatch %dx%d %s %dx%d" % (a.r, a.c, op, b.r, b.c))
                return self.matfrom([[self.sop(op, a.grid[i][j].v, b.grid[i][j].v) for j in range(a.c)] for i in range(a.r)], arr=a.arr)
            if op == "*" and not (a.arr or b.arr):
                if a.c != b.r:
                    raise OutOfRange("shape mismatch %dx%d * %dx%d" % (a.r, a.c, b.r, b.c))
                out = []
                for i in range(a.r):
                    row = []
                    for j in range(b.c):
                        s = None
                        for k in range(a.c):
                            x = self.sop("*", a.grid[i][k].v, b.grid[k][j].v)
                            s = x if s is None else self.sop("+", s, x)
                        row.append(s if s is not None else ZERO)
                    out.append(row)
                return self.matfrom(out)
            if op in ("*", "/") and (a.arr or b.arr):
                return self.matfrom([[self.sop(op, a.grid[i][j].v, b.grid[i][j].v) for j in range(a.c)] for i in range(a.r)], arr=True)
            if op in ("==", "!="):
                r = TRUE
                for x, y in zip(a.cells(), b.cells()):
                    r = land(r, tm.cmp("==", x.v, y.v))
                return r if op == "==" else lnot(r)
        elif isinstance(a, Mat):
            if op in ("*", "/") or a.arr:
                if op in ("<", "<=", ">", ">=", "==", "!="):
                    return self.mapmat(a, lambda x: tm.cmp(op, x, b))
                return self.mapmat(a, lambda x: self.sop(op, x, b))
        else:
            if op == "*" or b.arr:
                return self.mapmat(b, lambda x: self.sop(op, a, x))
        raise Unsupported("matrix operator " + op)

    def coeff(self, m, args):
        idx = [self.eval(a) for a in args]
        ls = []
        for i in idx:
            l = tm.leaves(i) if isinstance(i, T) else None
            if l is None:
                raise Unsupported("symbolic matrix index")
            ls.append([(g, int(tm.cval(v))) for g, v in l])
        out = []
        if len(ls) == 1:
            out = [(g, m.at(i)) for g, i in ls[0]]
        else:
            for g, i in ls[0]:
                for h, j in ls[1]:
                    gg = land(g, h)
                    if gg is not FALSE:
                        out.append((gg, m.at(i, j)))
        return LVal(out)

    def comma_init(self, m, first):
        ci = _CommaInit(m)
        ci.push(self, self.eval(first))
        return ci

    def block(self, m, r0, c0, r, c):
        for v in (r0, c0, r, c):
            if not isinstance(v, int):
                raise Unsupported("block bounds")
        if r0 < 0 or c0 < 0 or r < 0 or c < 0 or r0 + r > m.r or c0 + c > m.c:
            raise OutOfRange("block (%d,%d,%d,%d) of a %dx%d matrix" % (r0, c0, r, c, m.r, m.c))
        return Mat([m.grid[i][c0:c0 + c] for i in range(r0, r0 + r)], r, c, view=True, rowmajor=m.rowmajor, arr=m.arr)

    def ints(self, args):
        out = []
        for a in args:
            v = self.eval(a)
            if not (isinstance(v, T) and tm.isc(v)):
                raise Unsupported("non-constant size")
            out.append(int(tm.cval(v)))
        return out

    def map_dims(self, t):
        """(rows, cols, rowmajor, scalar, outer stride, inner stride) of Eigen::Map<...>."""
        a = split_targs(t)
        pt = strip_cvref(a[0])
        m = split_targs(pt)
        outer = inner = None
        if len(a) > 2:
            st = a[2]
            sa = split_targs(st)
            if st.startswith("Eigen::Stride<"):
                outer, inner = int(sa[0]), int(sa[1])
            elif st.startswith("Eigen::OuterStride<"):
                outer = int(sa[0]) if sa else -1
            elif st.startswith("Eigen::InnerStride<"):
                inner = int(sa[0]) if sa else -1
        return int(m[1]), int(m[2]), bool(int(m[3]) & 1) if len(m) > 3 else False, m[0], outer, inner

    def tri_full(self, v):
        """the matrix a view stands for"""
        m = v.m
        if v.sym:
            return self.matfrom([[m.grid[i][j].v if v.inside(i, j) else m.grid[j][i].v for j in range(m.c)] for i in range(m.r)])
        unit, strict = v.mode & 4, v.mode & 8
        return self.matfrom([[(ONE if unit and i == j else ZERO if strict and i == j else m.grid[i][j].v) if v.inside(i, j) else ZERO for j in range(m.c)] for i in range(m.r)])

    def tri_assign(self, v, src, op=None):
        m = v.m
        if isinstance(src, Tri):
            src = self.tri_full(src)
        vals = src.vals()
        for i in range(m.r):
            for j in range(m.c):
                if v.inside(i, j) and not (i == j and v.mode & 12):
                    x = vals[i][j]
                    self.write(m.grid[i][j], self.copy(x if op is None else self.sop(op, m.grid[i][j].v, x)))

    def tri_member(self, v, name, args, n):
        if name == "rankUpdate":
            u = self.eval(args[0])
            rest = [self.eval(a) for a in args[1:]]
            w = rest.pop(0) if rest and isinstance(rest[0], Mat) else None
            k = rest[0] if rest else ONE
            tr = lambda q: self.matfrom([[q.grid[i][j].v for i in range(q.r)] for j in range(q.c)])
            d = self.matop("*", u, tr(w if w is not None else u))
            if w is not None:
                d = self.matop("+", d, self.matop("*", w, tr(u)))
            self.tri_assign(v, self.mapmat(d, lambda x: self.sop("*", k, x)), "+")
            return Cell(v)
        if name in ("llt", "ldlt"):
            return Dec(name.upper(), self.tri_full(v))
        if name == "solve":
            return self.matop("*", self.inverse(self.tri_full(v)), self.eval(args[0]))
        if name in ("rows", "cols"):
            return const(v.m.r if name == "rows" else v.m.c)
        return self.eigen_member(self.tri_full(v), name, args, n, None)

    def dec_member(self, d, name, args, n, base):
        h = getattr(self, "dechook", {}).get((d.kind, name)) or getattr(self, "dechook", {}).get(name)
        if h is not None:
            return h(self, d, [self.e_any(a) for a in args])
        if name in ("compute", "analyzePattern") or name == "factorize" and d.phase != "analyzed":
            d.failed = False
        elif d.failed and name in ("factorize", "solve", "solveInPlace"):
            raise OutOfRange("a factorization that failed is used")
        if name == "compute":
            d.m = self.copy(self.full(self.eval(args[0])))
            d.phase = "factorized"
            return base
        if name == "analyzePattern":
            m = self.full(self.eval(args[0]))
            d.pat, d.m, d.phase = (m.pat, (m.r, m.c)), None, "analyzed"
            return None
        if name == "factorize":
            m = self.full(self.eval(args[0]))
            if d.pat is None:
                raise OutOfRange("factorize() before analyzePattern()")
            if d.pat[1] != (m.r, m.c) or (m.pat is not None and d.pat[0] is not None and not m.pat <= d.pat[0]):
                raise OutOfRange("a matrix with another pattern than the analyzed one is factorized")
            d.m, d.phase = self.copy(m), "factorized"
            return None
        if name == "dumpMemory":
            return None
        if name == "setThreshold":
            v = self.eval(args[0])
            if isinstance(v, T) and not (tm.isc(v) and tm.cval(v) <= 1e-12):
                # singular values up to v times the largest are treated as zero: not the exact solution
                d.thr = v
            return base
        if name == "derived":
            return base
        if d.m is None:
            raise Unsupported("decomposition used before compute()")
        if name == "info":
            return ZERO
        if name in ("rows", "cols"):
            return const(d.m.r if name == "rows" else d.m.c)
        if name == "permutationPinv" or name == "permutationP":
            raise Unsupported("the permutation of a decomposition")
        if name == "solveInPlace":
            b = self.eval(args[0])
            if not isinstance(b, Mat) or d.kind not in CHOLS:
                raise Unsupported("decomposition method %s::%s at %s" % (d.kind, name, self.where(n)))
            self.assign_into(b, self.matop("*", self.inverse(self.tri_full(Tri(d.m, True, d.mode))), b))
            return TRUE
        if name == "solve":
            b = self.full(self.eval(args[0]))
            d.phase = "solved"
            if d.m.r > d.m.c and d.kind in ("HouseholderQR", "ColPivHouseholderQR"):
                t = self.matfrom([[d.m.grid[i][j].v for i in range(d.m.r)] for j in range(d.m.c)])
                return self.matop("*", self.inverse(self.matop("*", t, d.m)), self.matop("*", t, b))
            if d.m.r != d.m.c or d.kind in ("JacobiSVD", "BDCSVD"):
                # minimum-norm least-squares solution: pseudo-inverse times right-hand side
                P = self.matfrom([[tm.uf("pinv%s_%d_%d_%d_%d" % ("" if d.thr is None else "thr", d.m.r, d.m.c, i, j), *[c for r in d.m.vals() for c in r], *([] if d.thr is None else [d.thr])) for j in range(d.m.r)] for i in range(d.m.c)])
                return self.matop("*", P, b)
            if d.kind in CHOLS:    # only the lower triangle is read
                d.m = self.tri_full(Tri(d.m, True, d.mode))
            if self.inexact is not None and d.kind in CHOLS:
                b = self.matfrom([[tm.mul(self.inexact, c) for c in row] for row in b.vals()])
            return self.matop("*", self.inverse(d.m), b)
        if name == "inverse":
            return self.inverse(d.m)
        raise Unsupported("decomposition method %s::%s at %s" % (d.kind, name, self.where(n)))

    def full(self, v):
        return self.tri_full(v) if isinstance(v, Tri) else v

    def eigen_construct(self, n, t, args):
        if self.decomposition(t) is not None:
            return self.decompose(t, [self.full(self.eval(a)) for a in args])
        if t.startswith("Eigen::Map<") and re.match(r"(const )?Eigen::SparseMatrix<", split_targs(t)[0]):
            av = [self.eval(a) for a in args]
            if len(av) not in (6, 7) or len(av) == 7 and not isinstance(av[6], Null) and av[6] is not ZERO or not all(isinstance(x, T) and tm.isc(x) for x in av[:3]):
                raise Unsupported("sparse Map of %r at " % (av,) + self.where(n))
            r, c, nnz = [int(tm.cval(x)) for x in av[:3]]
            rm = split_targs(re.sub(r"^const ", "", split_targs(t)[0]))[1:2] == ["1"]
            ptrs = [Ptr(x.reg) if isinstance(x, Arr) else x for x in av[3:6]]
            rd = lambda p, i: self.load(self.deref(p, const(i)))
            outer = [int(tm.cval(rd(ptrs[0], i))) for i in range((r if rm else c) + 1)]
            if outer[-1] != nnz:
                raise OutOfRange("sparse map of %d nonzeros, the last offset is %d" % (nnz, outer[-1]))
            m = self.newmat(r, c, fill=ZERO, rowmajor=rm)
            m.pat = set()
            for o in range(len(outer) - 1):
                for q in range(outer[o], outer[o + 1]):
                    k = int(tm.cval(rd(ptrs[1], q)))
                    i, j = (o, k) if rm else (k, o)
                    if not (0 <= i < r and 0 <= j < c):
                        raise OutOfRange("entry %d, %d of a %d x %d sparse map" % (i, j, r, c))
                    m.pat.add((i, j))
                    m.grid[i][j].v = tm.add(m.grid[i][j].v, rd(ptrs[2], q))
            return m
        if t.startswith("Eigen::SparseMatrix<"):
            av = [self.full(self.eval(a)) for a in args]
            if not av:
                return self.default(t)
            if len(av) == 1 and isinstance(av[0], Mat):
                m = self.convert(av[0], t)
                return m
        if t.startswith("Eigen::Map<"):
            r, c, rm, el, outer, inner = self.map_dims(t)
            av = [self.eval(a) for a in args]
            p = av[0]
            stride = None
            if len(av) > 1 and isinstance(av[-1], (Obj, tuple)):
                stride = av[-1]
                av = av[:-1]
            dims = [int(tm.cval(x)) for x in av[1:] if isinstance(x, T) and tm.isc(x)]
            if len(dims) != len(av) - 1:
                raise Unsupported("Map with non-constant size")
            if len(dims) == 2:
                r, c = dims
            elif len(dims) == 1:
                if c == 1 or r != 1:
                    r = dims[0]
                else:
                    c = dims[0]
            if isinstance(p, Null):
                if r * c == 0:
                    return Mat([[] for _ in range(r)], r, c, view=True)
                return Mat([[NullCell() for _ in range(c)] for _ in range(r)], r, c, view=True)
            if isinstance(p, Arr):
                p = Ptr(p.reg)
            if isinstance(p, Phi):
                raise Unsupported("Map of gated pointer")
            if not isinstance(p, Ptr) or not tm.isc(p.off):
                raise Unsupported("Map of %r" % (p,))
            o = int(tm.cval(p.off))
            if isinstance(stride, tuple):
                so, si = stride
            else:
                so = si = None
            inn = si if si else (inner if inner and inner > 0 else 1)
            defo = c if rm else r
            out = so if so else (outer if outer and outer > 0 else defo * inn)
            if rm:
                grid = [[self.region_at(p.reg, o + i * out + j * inn) for j in range(c)] for i in range(r)]
            else:
                grid = [[self.region_at(p.reg, o + j * out + i * inn) for j in range(c)] for i in range(r)]
            m = Mat(grid, r, c, view=True, rowmajor=rm, arr="Eigen::Array<" in t)
            m.base = p
            return m
        if t.startswith(("Eigen::OuterStride<", "Eigen::InnerStride<", "Eigen::Stride<")):
            v = self.ints(args)
            if t.startswith("Eigen::OuterStride<"):
                return (v[0] if v else int(split_targs(t)[0]), None)
            if t.startswith("Eigen::InnerStride<"):
                return (None, v[0] if v else int(split_targs(t)[0]))
            return (v[0], v[1]) if len(v) == 2 else (None, None)
        if t.startswith(("Eigen::Matrix<", "Eigen::Array<")):
            d = self.default(t)
            av = [self.eval(a) for a in args]
            if not av:
                return d
            if len(av) == 1:
                v = av[0]
                v = self.full(v)
                if isinstance(v, Mat):
                    return self.convert(self.copy(v), t)
                if isinstance(v, list):
                    return self.aggregate(v, t)
                if isinstance(v, Ptr) or isinstance(v, Arr):
                    p = Ptr(v.reg) if isinstance(v, Arr) else v
                    for i, c in enumerate(d.reg.cells):
                        c.v = self.load(self.deref(p, const(i)))
                    return d
                if isinstance(v, (T, Obj)):
                    if d.r * d.c == 1 and not any(d.dyn):
                        d.cells()[0].v = v
                        return d
                    if isinstance(v, T) and tm.isc(v):
                        k = int(tm.cval(v))
                        self.resize(d, k if d.dyn[0] else d.r, d.c if not d.dyn[1] else (k if not d.dyn[0] else d.c))
                        if d.dyn[0] and d.c == 0:
                            self.resize(d, k, 1)
                        return d
                    if isinstance(v, T) and isinstance(v, T) and any(d.dyn):
                        raise Unsupported("symbolic matrix size")
            if any(d.dyn) and len(av) == 2 and all(isinstance(x, T) and tm.isc(x) for x in av):
                self.resize(d, int(tm.cval(av[0])), int(tm.cval(av[1])))
                return d
            if len(av) == 2 and d.r * d.c != 2 and all(isinstance(x, T) and tm.isc(x) for x in av):
                if [int(tm.cval(x)) for x in av] != [d.r, d.c]:
                    raise OutOfRange("%s constructed with sizes %s" % (t[:60], [int(tm.cval(x)) for x in av]))
                return d
            if len(av) == d.r * d.c:
                for c, x in zip(d.cells(), av):
                    c.v = self.copy(x)
                return d
        if t.startswith("Eigen::Block<") and len(args) in (2, 3, 5):
            m = self.eval(args[0])
            m = self.load(m) if isinstance(m, (Cell, LVal)) else m
            d = self.ints(args[1:])
            q = [int(x) for x in split_targs(t)[1:3]]
            if isinstance(m, Mat):
                if len(d) == 1:
                    return self.block(m, *((d[0], 0, 1, m.c) if q[0] == 1 else (0, d[0], m.r, 1)))
                return self.block(m, d[0], d[1], *(d[2:] if len(d) == 4 else q))
        if t.startswith("Eigen::Ref<") or len(args) == 1:
            v = self.eval(args[0])
            if isinstance(v, Mat):
                return v
        raise Unsupported("Eigen constructor %s at %s" % (t[:80], self.where(n)))

    IDENT_METHODS = {"eval", "noalias", "derived", "array", "matrix", "const_cast_derived", "nestedExpression"}

    def eigen_member(self, m, name, args, n, base):
        if name in ("eval", "noalias", "derived"):
            return base if name == "noalias" else m
        if name in ("array", "matrix"):
            r = Mat(m.grid, m.r, m.c, view=True, rowmajor=m.rowmajor, arr=(name == "array"))
            return Cell(r)
        if name in ("rows", "cols", "size", "innerSize", "outerSize", "innerStride", "outerStride"):
            if name == "innerStride":
                return ONE
            if name == "outerStride":
                return const(m.c if m.rowmajor else m.r)
            return const({"rows": m.r, "cols": m.c, "size": m.r * m.c}[name])
        if name == "data":
            if m.base is not None:
                return m.base
            if m.reg is not None:
                return Ptr(m.reg)
            if m.r * m.c:
                return self.addr(m.grid[0][0])
            return NULL
        if name in ("setZero", "setConstant", "fill", "setOnes"):
            av = [self.eval(a) for a in args]
            if name == "setZero" and av:
                dims = [int(tm.cval(x)) for x in av]
                self.resize(m, dims[0], dims[1] if len(dims) > 1 else (1 if m.c in (0, 1) else m.c))
                av = []
            v = ZERO if name == "setZero" else (ONE if name == "setOnes" else av[-1])
            if name in ("setZero", "setOnes"):
                ex = [c.v for c in m.cells() if isinstance(c.v, Obj)]
                if ex:
                    v = self.promote(v, ex[0].cls)
            for c in m.cells():
                self.write(c, self.copy(v))
            return base
        if name == "setIdentity":
            if args:
                d = self.ints(args)
                self.resize(m, d[0], d[1])
            for i in range(m.r):
                for j in range(m.c):
                    self.write(m.grid[i][j], ONE if i == j else ZERO)
            return base
        if name in ("resize", "conservativeResize"):
            d = self.ints(args)
            if len(d) == 1:
                d = [d[0], 1] if m.c in (0, 1) or not m.dyn[1] else [1, d[0]]
            self.resize(m, d[0], d[1], name == "conservativeResize")
            return None
        if name in ("coeff", "coeffRef", "operator()", "operator[]"):
            return self.coeff(m, args)
        if name in ("x", "y", "z", "w"):
            return m.at("xyzw".index(name))
        if name == "value" or name.startswith("operator ") and m.r * m.c == 1:
            return m.at(0, 0)
        ta = n.get("ta", "") or ""
        if not re.match(r"^\s*-?\d", ta):
            ta = ""
        if name == "isZero":
            tol = self.eval(args[0]) if args else const(Fraction(1, 10**12))
            r = TRUE
            for c in m.cells():
                r = land(r, lnot(tm.cmp("<", tol, tm.fun("abs", c.v))))
            return r
        if name in ("head", "tail", "segment"):
            if args or ta:
                d = self.ints(args)
                k = int(ta.split(",")[0]) if ta and not (name in ("head", "tail") and len(d) == 1 and False) else None
                if k is None or (len(d) == (1 if name != "segment" else 2)):
                    k = d[-1]
                total = m.r * m.c
                s = {"head": 0, "tail": total - k, "segment": d[0] if d else 0}[name]
                return Cell(self.block(m, s, 0, k, 1) if m.c == 1 else self.block(m, 0, s, 1, k))
        if name in ("row", "col"):
            i = self.ints(args)[0]
            return Cell(self.block(m, i, 0, 1, m.c) if name == "row" else self.block(m, 0, i, m.r, 1))
        if name in ("topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
            d = self.ints(args)
            k = d[-1] if len(d) >= (2 if name.startswith("middle") else 1) else int(ta.split(",")[0])
            if name == "topRows":
                return Cell(self.block(m, 0, 0, k, m.c))
            if name == "bottomRows":
                return Cell(self.block(m, m.r - k, 0, k, m.c))
            if name == "leftCols":
                return Cell(self.block(m, 0, 0, m.r, k))
            if name == "rightCols":
                return Cell(self.block(m, 0, m.c - k, m.r, k))
            if name == "middleRows":
                return Cell(self.block(m, d[0], 0, k, m.c))
            return Cell(self.block(m, 0, d[0], m.r, k))
        if name == "block":
            d = self.ints(args)
            if len(d) == 2:
                q = [int(x) for x in ta.split(",")[:2]]
                return Cell(self.block(m, d[0], d[1], q[0], q[1]))
            return Cell(self.block(m, *d))
        if name in ("topLeftCorner", "bottomRightCorner", "topRightCorner", "bottomLeftCorner"):
            d = self.ints(args) or [int(x) for x in ta.split(",")[:2]]
            r0 = 0 if name.startswith("top") else m.r - d[0]
            c0 = 0 if "Left" in name else m.c - d[1]
            return Cell(self.block(m, r0, c0, d[0], d[1]))
        if name in ("transpose", "adjoint"):
            return Cell(Mat([[m.grid[i][j] for i in range(m.r)] for j in range(m.c)], m.c, m.r, view=True, rowmajor=not m.rowmajor, arr=m.arr))
        if name == "diagonal":
            o = self.ints(args)[0] if args else (int(ta.split(",")[0]) if ta else 0)
            k = min(m.r + min(o, 0), m.c - max(o, 0))
            return Cell(Mat([[m.grid[i - min(o, 0)][i + max(o, 0)]] for i in range(k)], k, 1, view=True))
        if name == "asDiagonal":
            v = [c.v for c in m.cells()]
            k = len(v)
            return self.matfrom([[v[i] if i == j else ZERO for j in range(k)] for i in range(k)])
        if name in ("dot", "cwiseProduct", "cwiseQuotient", "cross"):
            o = self.eval(args[0])
            a = [c.v for c in m.cells()]
            b = [c.v for c in o.cells()]
            if len(a) != len(b):
                raise OutOfRange("%s of %d and %d coefficients" % (name, len(a), len(b)))
            if name == "dot":
                s = None
                for x, y in zip(a, b):
                    z = self.sop("*", x, y)
                    s = z if s is None else self.sop("+", s, z)
                return s if s is not None else ZERO
            if name == "cross":
                g = lambda i, j: self.sop("-", self.sop("*", a[i], b[j]), self.sop("*", a[j], b[i]))
                return self.matfrom([[g(1, 2)], [g(2, 0)], [g(0, 1)]])
            op = "*" if name == "cwiseProduct" else "/"
            return self.matfrom([[self.sop(op, m.grid[i][j].v, o.grid[i][j].v) for j in range(m.c)] for i in range(m.r)])
        if name in ("colwise", "rowwise"):
            return VW(m, name == "colwise")
        if name in ("squaredNorm", "norm", "sum", "prod", "mean", "stableNorm", "trace", "lpNorm"):
            v = [c.v for c in m.cells()]
            if name == "trace":
                v = [m.grid[i][i].v for i in range(min(m.r, m.c))]
            if name == "lpNorm":
                if ta.startswith("1"):
                    v = [self.sfun("abs", x) for x in v]
                elif ta.startswith("-1"):
                    v = [self.sfun("abs", x) for x in v]
                    s = v[0] if v else ZERO
                    for x in v[1:]:
                        s = ite(tm.cmp("<", s, x), x, s)
                    return s
                elif ta.startswith("2"):
                    name = "norm"
                else:
                    raise Unsupported("lpNorm")
            if name in ("squaredNorm", "norm", "stableNorm"):
                v = [self.sop("*", x, x) for x in v]
            s = None
            for x in v:
                s = x if s is None else self.sop("*" if name == "prod" else "+", s, x)
            if s is None:
                s = ZERO
            if name in ("norm", "stableNorm"):
                return self.sfun("sqrt", s)
            if name == "mean":
                return self.sop("/", s, const(len(v)))
            return s
        if name in ("maxCoeff", "minCoeff"):
            v = [c.v for c in m.cells()]
            s = v[0]
            for x in v[1:]:
                c = tm.cmp("<", s, x) if name == "maxCoeff" else tm.cmp("<", x, s)
                s = ite(c, x, s)
            return s
        if name in ("cwiseAbs", "cwiseSqrt", "cwiseAbs2", "square", "sqrt", "abs", "exp", "sin", "cos", "cube", "cwiseInverse", "inverse", "log"):
            if name == "inverse" and not m.arr:
                return self.inverse(m)
            if name in ("square", "cwiseAbs2"):
                return self.mapmat(m, lambda x: self.sop("*", x, x))
            if name in ("cwiseInverse", "inverse"):
                return self.mapmat(m, lambda x: self.sop("/", ONE, x))
            f = {"cwiseAbs": "abs", "cwiseSqrt": "sqrt"}.get(name, name)
            return self.mapmat(m, lambda x: self.sfun(f, x))
        if name in ("cwiseMax", "cwiseMin") or (name in ("max", "min") and m.arr):
            o = self.eval(args[0])
            g = (lambda x, y: ite(tm.cmp("<", x, y), y, x)) if name in ("cwiseMax", "max") else (lambda x, y: ite(tm.cmp("<", y, x), y, x))
            if isinstance(o, Mat):
                return self.matfrom([[g(m.grid[i][j].v, o.grid[i][j].v) for j in range(m.c)] for i in range(m.r)])
            return self.mapmat(m, lambda x: g(x, o))
        if name in ("normalize", "normalized"):
            v = [c.v for c in m.cells()]
            s = None
            for x in v:
                z = self.sop("*", x, x)
                s = z if s is None else self.sop("+", s, z)
            nn = self.sfun("sqrt", s)
            r = self.mapmat(m, lambda x: self.sop("/", x, nn))
            if name == "normalize":
                self.assign_into(m, r)
                return None
            return r
        if name == "swap":
            o = self.load(self.e_any(args[0])) if not isinstance(self.e_any(args[0]), Mat) else self.e_any(args[0])
            a, b = self.copy(m), self.copy(o)
            self.assign_into(m, b)
            self.assign_into(o, a)
            return None
        if name in ("applyHouseholderOnTheLeft", "applyHouseholderOnTheRight"):
            ess = [c.v for c in self.eval(args[0]).cells()]
            tau = self.eval(args[1])
            u = [ONE] + ess
            left = name.endswith("Left")
            k = m.r if left else m.c
            if len(u) != k:
                raise OutOfRange("Householder vector of %d for dimension %d" % (len(u), k))
            H = self.matfrom([[tm.sub(ONE if i == j else ZERO, tm.mul(tau, tm.mul(u[i], u[j]))) for j in range(k)] for i in range(k)])
            r = self.matop("*", H, m) if left else self.matop("*", m, H)
            self.assign_into(m, r)
            return None
        if name == "allFinite":
            r = TRUE
            for c in m.cells():
                r = land(r, tm.fun("isfinite", c.v))
            return r
        if name == "hasNaN":
            r = FALSE
            for c in m.cells():
                r = lor(r, tm.fun("isnan", c.v))
            return r
        if name in ("all", "any"):
            r = TRUE if name == "all" else FALSE
            for c in m.cells():
                r = (land if name == "all" else lor)(r, self.truth(c.v))
            return r
        if name == "template cast" or name == "cast":
            return m
        if name == "triangularView" or name == "selfadjointView":
            t = strip_cvref(self.ty(n))
            q = split_targs(t[t.index("View<"):]) if "View<" in t else []
            mode = int(q[1]) if len(q) > 1 and q[1].lstrip("-").isdigit() else None
            if mode is None:
                mm = re.match(r"^\s*(\d+)", n.get("ta", "") or "")
                mode = int(mm.group(1)) if mm else None
            if mode is None:
                raise Unsupported("view mode of " + t[:100])
            return Cell(Tri(m, name.startswith("self"), mode))
        if name in ("partialPivLu", "fullPivLu", "llt", "ldlt", "colPivHouseholderQr", "householderQr", "jacobiSvd"):
            return Dec({"partialPivLu": "PartialPivLU", "fullPivLu": "FullPivLU", "llt": "LLT", "ldlt": "LDLT", "colPivHouseholderQr": "ColPivHouseholderQR", "householderQr": "HouseholderQR", "jacobiSvd": "JacobiSVD"}[name], self.copy(m))
        if name == "determinant":
            return self.det(m.vals())
        if name == "reverse":
            cs = [c for row in m.grid for c in row]
            if 1 not in (m.r, m.c):
                raise Unsupported("reverse of a matrix")
            cs.reverse()
            return Cell(Mat([[c] for c in cs] if m.c == 1 else [cs], m.r, m.c, view=True))
        if name == "lazyProduct":
            return self.matop("*", m, self.eval(args[0]))
        if name == "begin":
            return Ptr(m.reg) if m.reg else self.addr(m.grid[0][0])
        if name == "end":
            return Ptr(m.reg, const(len(m.reg.cells)))
        if name == "replicate":
            raise Unsupported("replicate")
        raise Unsupported("Eigen method %s at %s" % (name, self.where(n)))

    def det(self, M):
        return M[0][0] if len(M) == 1 else _sum([tm.mul(M[0][j] if j % 2 == 0 else tm.neg(M[0][j]), self.det([r[:j] + r[j + 1:] for r in M[1:]])) for j in range(len(M))])

    def inverse(self, m):
        k = m.r
        det = self.det
        M = m.vals()
        if k > 6:
            raise Unsupported("inverse")
        d = det(M)
        if k == 1:
            return self.matfrom([[tm.div(ONE, M[0][0])]])
        cof = [[det([r[:j] + r[j + 1:] for q, r in enumerate(M) if q != i]) for j in range(k)] for i in range(k)]
        return self.matfrom([[tm.div(cof[j][i] if (i + j) % 2 == 0 else tm.neg(cof[j][i]), d) for j in range(k)] for i in range(k)])

    def emplace(self, inner, args, targs=None, heap=False):
        """A new object of class inner built from argument expressions."""
        inner = strip_cvref(inner)
        if inner == "std::thread":
            return self.thread(args)
        av = [self.e_any(a) for a in args]
        cands = [f for f in self.F.fns.values() if f.get("ctor") and strip_cvref(f.get("clst", "")) == inner and (len(f.params) == len(av) or len(f.params) > len(av) and "def" in f.params[len(av)])]
        exact = [f for f in cands if len(f.params) == len(av)]
        if exact or not av:
            cands = exact
        if len(cands) > 1:
            at = [strip_cvref(x) for x in targs] if targs is not None else [strip_cvref(self.ty(a)) for a in args]
            cands = [f for f in cands if all((strip_cvref(f.types[p["t"]]).endswith("*") == x.endswith("*")) for p, x in zip(f.params, at))] or cands
        if len(cands) == 1:
            f = cands[0]
            o = Obj(inner)
            self.init_fields(o, self.F.recs[inner])
            for p in f.params[len(av):]:
                self.frames.append(Frame(f, o))
                try:
                    av.append(self.e_any(p["def"]))
                finally:
                    self.frames.pop()
            self.call(f, av, o)
            return o
        if len(av) == 1:
            v = self.load(av[0]) if isinstance(av[0], (Cell, LVal)) else av[0]
            if isinstance(v, Obj) and strip_cvref(v.cls) == inner:
                return self.copy(v)
        if not av:
            o = self.default(inner)
            if isinstance(o, Obj):
                self.default_member_inits(o, inner)
                return o
            return Ptr(Region([Cell(o)], "heap")) if heap else o
        if inner.startswith(("std::pair<", "std::tuple<")) and not heap:
            o = self.default(inner)
            for c, v in zip(o.f.values(), av):
                self.write(c, self.load(v) if isinstance(v, (Cell, LVal)) else v)
            return o
        if self.decomposition(inner) is not None:
            d = self.decompose(inner, [self.full(self.load(v) if isinstance(v, (Cell, LVal)) else v) for v in av])
            return Ptr(Region([Cell(d)], "heap")) if heap else d
        raise Unsupported("construction of %s" % inner)

    # ------------------------------------------------------------- std
    def std_member(self, recv, name, args, n, base):
        fq = n.get("fq", "")
        if isinstance(recv, Obj) and fq.startswith(SYNC):
            return self.sync_member(recv, name, args, n)
        if isinstance(recv, Obj) and recv.cls == "std::thread" and name in ("join", "joinable", "detach"):
            t = recv.f["thread"].v.o if "thread" in recv.f else None
            if name == "join":
                if t is None:
                    raise OutOfRange("join of a thread that is not running")
                self.coop.join(t)
                recv.f.pop("thread")
                return None
            if name == "joinable":
                return const(t is not None)
            recv.f.pop("thread", None)
            return None
        if isinstance(recv, Assoc):
            return self.a_member(recv, name, args, n, base)
        if isinstance(recv, (Vec, Arr)):
            if self.coop and isinstance(recv, Vec):
                self.coop.access(recv, name in ("push", "pop", "push_back", "emplace_back", "resize", "assign", "clear", "pop_back", "pop_front", "push_front", "erase", "insert", "swap"))
            if fq.startswith("std::queue") and name in ("push", "pop", "emplace"):
                name = {"push": "push_back", "pop": "pop_front", "emplace": "emplace_back"}[name]
            self.sized(recv.reg, name in ("push_back", "emplace_back", "resize", "assign", "clear", "pop_back", "pop_front", "push_front", "erase", "insert"))
            if name == "size":
                return const(len(recv.reg.cells))
            if name == "empty":
                return const(not recv.reg.cells)
            if name in ("data", "begin", "cbegin"):
                return Ptr(recv.reg)
            if name in ("end", "cend"):
                return Ptr(recv.reg, const(len(recv.reg.cells)))
            if name in ("rbegin", "crbegin"):
                return Rev(recv.reg, const(len(recv.reg.cells)))
            if name in ("rend", "crend"):
                return Rev(recv.reg)
            if name in ("pop_back", "pop_front") and isinstance(recv, Vec):
                cs = recv.reg.cells
                g = recv.reg.guard if hasattr(recv.reg, "guard") else None
                vals = [c.v for c in (cs[:-1] if name == "pop_back" else cs[1:])]
                if not cs:
                    raise OutOfRange("%s of an empty container" % name)
                recv.reg = Region([Cell(v) for v in vals], "vector")
                recv.reg.guard = g if g is not None else self.live
                return None
            if name == "erase" and isinstance(recv, Vec):
                av = [self.eval(a) for a in args]
                k = extent(av[0].off, ZERO)
                j = extent(av[1].off, ZERO) if len(av) > 1 else k + 1
                if not (isinstance(av[0], Ptr) and av[0].reg is recv.reg and 0 <= k <= j <= len(recv.reg.cells)):
                    raise OutOfRange("erase outside the container")
                vals = [c.v for c in recv.reg.cells]
                recv.reg = Region([Cell(v) for v in vals[:k] + vals[j:]], "vector")
                recv.reg.guard = self.live
                return Ptr(recv.reg, const(k))
            if name == "insert" and isinstance(recv, Vec) and len(args) == 2:
                at, v = self.eval(args[0]), self.copy_as(self.eval(args[1]), recv.elem)
                if isinstance(at, Ptr) and at.reg is recv.reg:
                    k, old = extent(at.off, ZERO), [c.v for c in recv.reg.cells]
                    recv.reg = Region([Cell(x) for x in old[:k] + [v] + old[k:]], "vector")
                    recv.reg.guard = self.live
                    return Ptr(recv.reg, const(k))
            if name == "insert" and isinstance(recv, Vec) and len(args) == 3:
                at, lo, hi = [self.eval(a) for a in args]
                if isinstance(at, Ptr) and at.reg is recv.reg and isinstance(lo, Ptr) and isinstance(hi, Ptr):
                    new = [self.copy(self.load(self.deref(lo, const(i)))) for i in range(extent(hi.off, lo.off))]
                    k, old = extent(at.off, ZERO), [c.v for c in recv.reg.cells]
                    recv.reg = Region([Cell(v) for v in old[:k] + new + old[k:]], "vector")
                    recv.reg.guard = self.live
                    return Ptr(recv.reg, const(k))
            if name == "push_front" and isinstance(recv, Vec):
                v = self.copy(self.eval(args[0]))
                recv.reg = Region([Cell(v)] + [Cell(c.v) for c in recv.reg.cells], "vector")
                recv.reg.guard = self.live
                return None
            if name == "front":
                return recv.reg.cells[0]
            if name == "back":
                return recv.reg.cells[-1]
            if name == "at":
                return LVal(self.region_cells(recv.reg, self.eval(args[0])))
            if name == "fill":
                v = self.eval(args[0])
                for c in recv.reg.cells:
                    self.write(c, self.copy(v))
                return None
            if name in ("push_back", "emplace_back") and isinstance(recv, Vec):
                if name == "emplace_back" and (len(args) != 1 or not args or strip_cvref(recv.elem) == "std::thread"):
                    v = self.emplace(recv.elem, args)
                else:
                    v = self.eval(args[0])
                c = Cell(self.copy_as(v, recv.elem), recv.reg, len(recv.reg.cells))
                recv.reg.cells.append(c)
                recv.reg.when[c] = self.live
                return c
            if name in ("resize", "assign") and isinstance(recv, Vec):
                av = [self.eval(a) for a in args]
                k = int(tm.cval(av[0]))
                if name == "assign":
                    recv.reg = Region([], "vector")
                    recv.reg.guard = self.live
                while len(recv.reg.cells) < k:
                    recv.reg.cells.append(Cell(self.copy(av[1]) if len(av) > 1 else self.zero(recv.elem), recv.reg, len(recv.reg.cells)))
                del recv.reg.cells[k:]
                return None
            if name in ("reserve", "shrink_to_fit"):
                return None
            if name == "swap" and isinstance(recv, Vec):
                o = self.eval(args[0])
                if not isinstance(o, Vec):
                    raise Unsupported("swap of a container")
                self.sized(recv.reg)
                self.sized(o.reg)
                if self.live is TRUE:
                    recv.reg, o.reg = o.reg, recv.reg
                else:
                    a, b = self.copy(recv).reg, self.copy(o).reg
                    a.guard = b.guard = self.live
                    recv.reg, o.reg = b, a
                return None
            if name == "clear":
                recv.reg = Region([], "vector")
                recv.reg.guard = self.live
                return None
        if isinstance(recv, (Ptr, Null, Opaque, Obj, Phi)) and name == "get":
            return recv
        if isinstance(recv, (Ptr, Null, Opaque, Obj)) and name == "reset":
            v = self.eval(args[0]) if args else NULL
            self.store(base, v)
            return None
        if name.startswith("operator bool") or name == "operator bool":
            return self.truth(recv)
        if isinstance(recv, T) and fq.startswith(("std::atomic", "std::__atomic_base")):
            if self.coop:
                return self.atomic_op(name, args, base, n)
            if name == "load" or name.startswith("operator "):
                return recv
            if name == "store":
                self.store(base, self.eval(args[0]))
                return None
            if name in ("fetch_add", "fetch_sub", "exchange"):
                v = self.eval(args[0])
                self.store(base, v if name == "exchange" else (tm.add if name == "fetch_add" else tm.sub)(recv, v))
                return recv
        if name.startswith("operator") and isinstance(recv, Obj):
            m = re.match(r"^std::integral_constant<([^,]*), *(.*)>$", recv.cls)
            if m:
                return const({"true": True, "false": False}.get(m.group(2), None) if m.group(2) in ("true", "false") else int(re.sub("[uUlL]+$", "", m.group(2))))
        if name.startswith("operator ") and isinstance(recv, Mat):
            return recv
        if "cv" in n:
            return const(int(n["cv"]))
        if isinstance(recv, Obj) and recv.cls.startswith("std::basic_string") and name in ("clear", "append", "assign", "push_back", "reserve"):
            for a in args:          # text is not modelled
                self.e_any(a)
            if name not in ("clear", "reserve"):
                recv.f["used"] = Cell(TRUE)
            return base
        if isinstance(recv, Obj) and recv.cls.startswith("std::basic_string") and name == "empty":
            return FALSE if "used" in recv.f else TRUE
        raise Unsupported("method %s of %r at %s" % (name, recv, self.where(n)))

    def unlock(self, o):
        if self.coop and held(o):
            o.f["held"] = Cell(FALSE)
            self.coop.unlock(o.f["mutex"].v.o)

    def thread(self, args):
        av = [self.eval(a) for a in args]
        o = Obj("std::thread")
        if av:
            if not self.coop:
                raise Unsupported("thread")
            f = av[0]
            fn = self.F.fns.get(f.node.get("u")) if isinstance(f, FnRef) else None
            if fn is not None and fn.get("cls") and not fn.get("static"):
                this = self.load(self.deref(av[1]))
                o.f = {"thread": Cell(Handle(self.coop.spawn(lambda: self.call(fn, av[2:], this))))}
            else:
                o.f = {"thread": Cell(Handle(self.coop.spawn(lambda: self.apply(f, av[1:]))))}
        return o

    def atomic_op(self, name, args, base, n):
        av = [self.eval(a) for a in args]
        cell = base if isinstance(base, Cell) else base.alts[0][1] if isinstance(base, LVal) and len(base.alts) == 1 else None
        if cell is None:
            raise Unsupported("atomic through a gated reference")
        self.coop.atomic(cell)
        old = cell.v
        res = old
        if name == "store":
            cell.v, res = av[0], None
        elif name == "exchange":
            cell.v = av[0]
        elif name in ("fetch_add", "fetch_sub"):
            cell.v = (tm.add if name == "fetch_add" else tm.sub)(old, av[0])
        elif name in ("operator++", "operator--", "operator+=", "operator-="):
            d = av[0] if name[-1] == "=" else ONE
            cell.v = (tm.add if "+" in name else tm.sub)(old, d)
            res = old if av and name[-1] != "=" else cell.v
        elif name == "operator=":
            cell.v = res = av[0]
        elif name != "load" and not name.startswith("operator "):
            raise Unsupported("atomic %s" % name)
        self.coop.release(cell)
        return res

    def sync_member(self, recv, name, args, n):
        """Locks and condition variables with one thread of control: what is waited for has to have happened."""
        if name in ("wait",):
            a = [self.e_any(x) for x in args]
            if self.coop:
                def holds():
                    q = self.truth(self.apply(a[1], [])) if len(a) > 1 else FALSE
                    if q is not TRUE and q is not FALSE:
                        raise Unsupported("wait for a symbolic condition")
                    return q is TRUE
                l = self.load(a[0]) if isinstance(a[0], (Cell, LVal)) else a[0]
                if not held(l):
                    raise OutOfRange("waits without holding the lock")
                if len(a) < 2:
                    woken = []
                    self.coop.wait(recv, l.f["mutex"].v.o, lambda: woken or woken.append(1))
                else:
                    self.coop.wait(recv, l.f["mutex"].v.o, holds)
                return None
            if len(a) > 1:
                while True:
                    q = self.truth(self.apply(a[1], []))
                    if q is TRUE:
                        return None
                    if q is not FALSE:
                        raise Unsupported("wait for a symbolic condition")
                    if not self.pending:
                        raise OutOfRange("waits for ever: nothing is left to run")
                    self.pending.pop(0)()
            raise Unsupported("wait without a condition")
        for x in args:
            self.e_any(x)
        if self.coop:
            if name in ("notify_one", "notify_all"):
                self.coop.notify(recv, name == "notify_all")
            elif recv.cls.startswith(LOCKS) and name in ("lock", "unlock"):
                if held(recv) == (name == "lock"):
                    raise OutOfRange("%s of a lock that is %sheld" % (name, "" if name == "lock" else "not "))
                if name == "lock":
                    self.coop.lock(recv.f["mutex"].v.o)
                    recv.f["held"] = Cell(TRUE)
                else:
                    self.unlock(recv)
            elif name in ("lock", "unlock"):
                (self.coop.lock if name == "lock" else self.coop.unlock)(recv)
            elif name == "owns_lock":
                return const(held(recv))
            elif name not in ("notify_one", "notify_all"):
                raise Unsupported("method %s of %s" % (name, recv.cls))
        return TRUE if name in ("owns_lock", "try_lock") else None

    def std_call(self, fq, args, n):
        name = fq.split("::")[-1]
        if "numeric_limits" in fq:
            m = re.search(r"numeric_limits<(.*)>::", fq)
            t = m.group(1) if m else "double"
            if name in ("infinity", "quiet_NaN", "signaling_NaN"):
                return tm.INF if name == "infinity" else tm.NAN
            lim = {("double", "max"): Fraction((2 - Fraction(1, 2**52)) * 2**1023), ("double", "min"): Fraction(1, 2**1022), ("double", "epsilon"): Fraction(1, 2**52),
                   ("double", "lowest"): -Fraction((2 - Fraction(1, 2**52)) * 2**1023), ("double", "denorm_min"): Fraction(1, 2**1074), ("double", "round_error"): Fraction(1, 2),
                   ("float", "max"): Fraction((2 - Fraction(1, 2**23)) * 2**127), ("float", "min"): Fraction(1, 2**126), ("float", "denorm_min"): Fraction(1, 2**149), ("float", "round_error"): Fraction(1, 2), ("float", "lowest"): -Fraction((2 - Fraction(1, 2**23)) * 2**127), ("float", "epsilon"): Fraction(1, 2**23),
                   ("int", "max"): Fraction(2**31 - 1), ("int", "min"): Fraction(-2**31)}.get((t, name))
            if lim is not None:
                return const(lim)
        if "cv" in n and not args:
            return const(int(n["cv"]))
        if name in ("move", "forward", "as_const", "ref", "cref", "addressof", "__addressof") and (fq.startswith("std::")):
            v = self.e_any(args[0])
            return self.addr(v) if "addressof" in name else v
        if name.startswith("__builtin_"):
            b = name[len("__builtin_"):]
            if b in ("inf", "huge_val", "inff"):
                return tm.INF
            if b in ("nan", "nanf"):
                return tm.NAN
            if b == "expect":
                return self.eval(args[0])
            if b == "isunordered":
                x, y = [self.eval(a) for a in args]
                return lor(tm.fun("isnan", x), tm.fun("isnan", y))
            name = b
        stdish = fq.startswith("std::") or "::" not in fq or fq.startswith("Eigen::")
        if name in ("abs", "fabs") and stdish:
            v = self.eval(args[0])
            if isinstance(v, Mat):
                return self.mapmat(v, lambda x: self.sfun("abs", x))
            return tm.lift(lambda x: tm.fun("abs", x), v) if isinstance(v, T) else self.sfun("abs", v)
        if name in MATH1 and stdish:
            v = self.eval(args[0])
            if isinstance(v, Obj):
                return self.sfun(name, v)
            if isinstance(v, _Uninit) and self.live is TRUE:
                raise UninitRead("use of an uninitialised value at " + self.where(n))
            if not isinstance(v, T):
                raise Unsupported("%s of %r" % (name, v))
            return tm.fun(name, v)
        if name in MATH2 and stdish:
            return tm.fun(name, *[self.conv_num(self.eval(a)) for a in args])
        if name == "hypot":
            return tm.fun("hypot", *[self.eval(a) for a in args])
        if name == "fma":
            a, b, c = [self.eval(x) for x in args]
            return tm.add(tm.mul(a, b), c)
        if name in ("isless", "isgreater", "islessequal", "isgreaterequal", "islessgreater", "isunordered"):
            a, b = [self.eval(x) for x in args]
            un = lor(tm.fun("isnan", a), tm.fun("isnan", b))
            return {"isless": lambda: tm.cmp("<", a, b), "isgreater": lambda: tm.cmp("<", b, a), "islessequal": lambda: tm.cmp("<=", a, b),
                    "isgreaterequal": lambda: tm.cmp("<=", b, a), "islessgreater": lambda: lor(tm.cmp("<", a, b), tm.cmp("<", b, a)), "isunordered": lambda: un}[name]()
        if name in ("min", "max") and fq.startswith("std::"):
            vs = [self.e_any(a) for a in args]
            vals = [self.load(v) if isinstance(v, (Cell, LVal)) else v for v in vs]
            if len(vals) == 1 and isinstance(vals[0], list):
                vals = vals[0]
            if len(vals) == 1 and isinstance(vals[0], (Arr, Vec)):
                vals = [c.v for c in vals[0].reg.cells]
            if all(isinstance(v, T) for v in vals):
                s = vals[0]
                for x in vals[1:]:
                    lt = (lambda p, q: tm.lift(lambda u, w: tm.cmp("<", u, w), p, q) if tm.tree(p) and tm.tree(q) else tm.cmp("<", p, q))
                    s = ite(lt(s, x), x, s) if name == "max" else ite(lt(x, s), x, s)
                return s
            a, b = vals
            op = self.find_cmp(self.vtype(a), self.vtype(b))
            lt = self.call(op, [a, b] if name == "max" else [b, a])
            return self.gate(self.truth(lt), b, a)
        if name == "midpoint" and fq.startswith("std::"):
            a, b = [self.eval(x) for x in args]
            return tm.div(tm.add(a, b), const(2))
        if name == "lerp" and fq.startswith("std::"):
            a, b, q = [self.eval(x) for x in args]
            return tm.add(a, tm.mul(q, tm.sub(b, a)))
        if name == "norm" and fq.startswith("std::"):
            a = self.eval(args[0])
            return tm.mul(a, a)
        if name == "clamp":
            v, lo, hi = [self.eval(a) for a in args]
            return ite(tm.cmp("<", v, lo), lo, ite(tm.cmp("<", hi, v), hi, v))
        if name == "swap":
            a, b = self.lval(args[0]), self.lval(args[1])
            if strip_cvref(self.ty(args[0])).rstrip(" const").endswith("*"):
                x, y = self.load(a), self.load(b)
                self.store(a, y, True)
                self.store(b, x, True)
                return None
            x, y = self.copy(self.load(a)), self.copy(self.load(b))
            self.store(a, y)
            self.store(b, x)
            return None
        if name in ("fill", "fill_n"):
            p = self.eval(args[0])
            e = self.eval(args[1])
            v = self.eval(args[2])
            k = extent(e.off, p.off) if isinstance(e, Ptr) else 0 if isinstance(e, Null) else int(tm.cval(e))
            for i in range(k):
                self.store(self.deref(p, const(i)), self.copy(v))
            return Ptr(p.reg, tm.add(p.off, const(k))) if isinstance(p, Ptr) else None
        if name in ("copy", "copy_n", "memcpy", "memmove", "uninitialized_copy", "copy_backward"):
            a = [self.eval(x) for x in args]
            a = [Ptr(x.reg) if isinstance(x, Arr) else x for x in a]
            if name in ("memcpy", "memmove"):
                dst, src = a[0], a[1]
                k = a[2]
                if not tm.isc(k):
                    raise Unsupported("memcpy size")
                x = args[0]
                while x["k"] == "ImplicitCastExpr" and re.match(r"^(const )?void ?\*", self.ty(x)) and x.get("c"):
                    x = x["c"][0]
                et = re.sub(r"\bconst\b", "", self.ty(x)).replace("*", "").strip()
                k = int(tm.cval(k)) // {"int": 4, "unsigned int": 4, "float": 4, "bool": 1, "char": 1}.get(et, 8)
            elif name == "copy_n":
                src, k, dst = a[0], int(tm.cval(a[1])), a[2]
            else:
                src, dst = a[0], a[2]
                k = 0 if isinstance(a[0], Null) and isinstance(a[1], Null) else extent(a[1].off, a[0].off)
            pointers = any(self.pointers_at(x) for x in args)
            vals = [v if pointers else self.copy(v) for v in (self.load(self.deref(src, const(i))) for i in range(k))]
            for i, v in enumerate(vals):
                self.store(self.deref(dst, const(i)), v, rebind=pointers)
            return Ptr(dst.reg, tm.add(dst.off, const(k))) if isinstance(dst, Ptr) else None
        if name == "back_inserter" and len(args) == 1:
            v = self.e_any(args[0])
            v = self.load(v) if isinstance(v, (Cell, LVal)) else v
            if not isinstance(v, Vec):
                raise Unsupported("back_inserter of %r" % (v,))
            return Inserter(v)
        if name in ("set_difference", "set_intersection", "set_union") and fq.startswith("std::") and len(args) == 5:
            a = [self.eval(x) for x in args]
            ptr = self.range_of_pointers(args[0])
            xs, ys = [[self.load(self.deref(p, const(i))) for i in range(0 if isinstance(p, Null) else extent(q.off, p.off))] for p, q in ((a[0], a[1]), (a[2], a[3]))]
            for vs in (xs, ys):
                ks = [self.keyof(v) for v in vs]
                if ks != sorted(ks):
                    raise OutOfRange("std::%s of a range that is not sorted" % name)
            from collections import Counter
            cx, cy = Counter(map(self.keyof, xs)), Counter(map(self.keyof, ys))
            want = cx - cy if name == "set_difference" else cx & cy if name == "set_intersection" else cx | cy
            val = {self.keyof(v): v for v in ys + xs}
            out = [val[k] for k in sorted(want.elements())]
            if isinstance(a[4], Inserter):
                if self.live is not TRUE:
                    raise Unsupported("conditional insertion")
                for v in out:
                    reg = a[4].v.reg
                    reg.cells.append(Cell(v if ptr else self.copy(v), reg, len(reg.cells)))
                return a[4]
            for i, v in enumerate(out):
                self.store(self.deref(a[4], const(i)), v if ptr else self.copy(v), ptr)
            return Ptr(a[4].reg, tm.add(a[4].off, const(len(out))))
        if name in ("lower_bound", "upper_bound", "partition_point", "binary_search", "find_if", "find_if_not", "count_if") and fq.startswith("std::"):
            a = [self.eval(x) for x in args]
            k = extent(a[1].off, a[0].off)
            el = lambda i: self.deref(a[0], const(i))
            less = lambda x, y: self.truth(self.apply(a[3], [x, y])) if len(a) > 3 else tm.cmp("<", self.load(x) if isinstance(x, (Cell, LVal)) else x, self.load(y) if isinstance(y, (Cell, LVal)) else y)
            test = {"lower_bound": lambda i: less(el(i), a[2]), "binary_search": lambda i: less(el(i), a[2]), "upper_bound": lambda i: lnot(less(a[2], el(i))),
                    "partition_point": lambda i: self.truth(self.apply(a[2], [el(i)])), "find_if": lambda i: lnot(self.truth(self.apply(a[2], [el(i)]))), "find_if_not": lambda i: self.truth(self.apply(a[2], [el(i)])),
                    "count_if": lambda i: self.truth(self.apply(a[2], [el(i)]))}[name]
            if name == "count_if":
                t = ZERO
                for i in range(k):
                    t = tm.add(t, ite(test(i), const(1), ZERO))
                return t
            if name.startswith("find"):
                off = a[1].off
                for i in reversed(range(k)):
                    off = ite(test(i), off, tm.add(a[0].off, const(i)))
                return Ptr(a[0].reg, off)
            qs = [test(i) for i in range(k)]
            if any(q is not TRUE and q is not FALSE for q in qs):
                raise Unsupported("std::%s of symbolic values" % name)
            if any(q is FALSE and w is TRUE for q, w in zip(qs, qs[1:])):
                raise OutOfRange("std::%s of a range that is not partitioned" % name)
            i = sum(1 for q in qs if q is TRUE)
            if name == "binary_search":
                return const(i < k and less(a[2], el(i)) is FALSE)
            return Ptr(a[0].reg, tm.add(a[0].off, const(i)))
        if name in ("reverse",) and fq.startswith("std::"):
            a = [self.eval(x) for x in args]
            k = extent(a[1].off, a[0].off)
            lvs = [self.deref(a[0], const(i)) for i in range(k)]
            ptr = self.range_of_pointers(args[0])
            for x, v in zip(lvs, [self.load(q) if ptr else self.copy(self.load(q)) for q in reversed(lvs)]):
                self.store(x, v, ptr)
            return None
        if name in ("partition", "stable_partition") and fq.startswith("std::"):
            a = [self.eval(x) for x in args]
            if isinstance(a[0], Rev):
                raise Unsupported(name + " of a range that is reversed")
            lvs, ptr, parts = self.span(a), self.range_of_pointers(args[0]), ([], [])
            for x in lvs:
                v = self.load(x) if ptr else self.copy(self.load(x))
                q = self.truth(self.apply(a[2], [Cell(v)]))
                if q is not TRUE and q is not FALSE:
                    raise Unsupported(name + " by a symbolic condition")
                parts[q is FALSE].append(v)
            if name == "partition":                # in any order
                parts = parts[0][::-1], parts[1][::-1]
            for x, v in zip(lvs, parts[0] + parts[1]):
                self.store(x, v, ptr)
            return Ptr(a[0].reg, tm.add(a[0].off, const(len(parts[0]))))
        if name in ("sort", "stable_sort") and fq.startswith("std::") and len(args) == 3:
            a = [self.eval(x) for x in args]
            lvs = self.span(a)
            out, ptr = [], self.range_of_pointers(args[0])
            for x in lvs:                          # insertion, so that equal elements keep their order
                v = self.load(x) if ptr else self.copy(self.load(x))
                at = len(out)
                while at:
                    q = self.truth(self.apply(a[2], [Cell(v), Cell(out[at - 1])]))
                    if q is not TRUE and q is not FALSE:
                        raise Unsupported("sort by a symbolic comparison")
                    if q is FALSE:
                        break
                    at -= 1
                out.insert(at, v)
            for x, v in zip(lvs, out):
                self.store(x, v, ptr)
            return None
        if name in ("sort", "stable_sort", "adjacent_find", "is_sorted", "unique") and fq.startswith("std::"):
            a = [self.eval(x) for x in args]
            if isinstance(a[0], Rev) and not name.endswith("sort"):
                raise Unsupported(name + " of a range that is reversed")
            lvs = self.span(a)
            k = len(lvs)
            vs = [self.load(x) for x in lvs]
            ptr = self.range_of_pointers(args[0])
            if len(a) > 2:
                def less(x, y):
                    r = self.truth(self.apply(a[2], [Cell(x), Cell(y)]))
                    if r is not TRUE and r is not FALSE:
                        raise Unsupported(name + " of non-constant values")
                    return r is TRUE
            else:
                def less(x, y):
                    if isinstance(x, Obj) and not ptr and not x.cls.startswith(("std::pair<", "std::tuple<")):
                        c = [f for f in self.F.by_n.get("operator<", ()) if strip_cvref(f.get("clst", "") or "") == x.cls and len(f.params) == 1 and f.body is not None]
                        r = self.truth(self.call(c[0], [Cell(y)], x) if c else self.call(self.find_cmp(x.cls, x.cls), [Cell(x), Cell(y)]))
                        if r is not TRUE and r is not FALSE:
                            raise Unsupported(name + " of non-constant values")
                        return r is TRUE
                    return self.keyof(x) < self.keyof(y)
            if name in ("sort", "stable_sort"):
                order = list(vs) if name == "stable_sort" or len(a) < 3 else list(reversed(vs))      # std::sort: elements that compare equal in any order
                order.sort(key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0))
                order = [self.copy_val(v) if ptr else self.copy(v) for v in order]
                for x, v in zip(lvs, order):
                    self.store(x, v, ptr)
                return None
            if name == "is_sorted":
                return const(not any(less(y, x) for x, y in zip(vs, vs[1:])))
            same = (lambda x, y: less(x, y)) if len(a) > 2 else (lambda x, y: self.keyof(x) == self.keyof(y))
            if name == "adjacent_find":
                i = next((i for i in range(k - 1) if same(vs[i], vs[i + 1])), k)
                return Ptr(a[0].reg, tm.add(a[0].off, const(i)))
            out = []
            for v in vs:
                if not out or not same(out[-1], v):
                    out.append(v)
            for x, v in zip(lvs, [self.copy_val(v) if ptr else self.copy(v) for v in out]):
                self.store(x, v, ptr)
            return Ptr(a[0].reg, tm.add(a[0].off, const(len(out))))
        if name in ("exclusive_scan", "partial_sum", "inclusive_scan"):
            a = [self.eval(x) for x in args]
            k = extent(a[1].off, a[0].off)
            if len(a) != (4 if name == "exclusive_scan" else 3):
                raise Unsupported("std::%s with an operation" % name)
            s = a[3] if name == "exclusive_scan" else None
            for i in range(k):
                x = self.load(self.deref(a[0], const(i)))
                if name == "exclusive_scan":
                    self.store(self.deref(a[2], const(i)), s)
                    s = self.sop("+", s, x)
                else:
                    s = x if s is None else self.sop("+", s, x)
                    self.store(self.deref(a[2], const(i)), s)
            return Ptr(a[2].reg, tm.add(a[2].off, const(k)))
        if name in ("iota",):
            p, e, v = [self.eval(x) for x in args]
            k = extent(e.off, p.off)
            for i in range(k):
                self.store(self.deref(p, const(i)), tm.add(v, const(i)))
            return None
        if name == "transform":
            av = [self.e_any(x) for x in args]
            a = [self.load(x) if isinstance(x, (Cell, LVal)) else x for x in av]
            k = extent(a[1].off, a[0].off)
            if len(a) == 4:
                srcs, dst, f = [a[0]], a[2], a[3]
            else:
                srcs, dst, f = [a[0], a[2]], a[3], a[4]
            for i in range(k):
                xs = [self.load(self.deref(s, const(i))) for s in srcs]
                self.store(self.deref(dst, const(i)), self.apply(f, xs))
            return Ptr(dst.reg, tm.add(dst.off, const(k)))
        if name == "for_each":
            a = [self.eval(x) for x in args]
            k = extent(a[1].off, a[0].off)
            for i in range(k):
                self.apply(a[2], [self.deref(a[0], const(i))])
            return a[2]
        if name in ("accumulate", "inner_product"):
            a = [self.eval(x) for x in args]
            k = extent(a[1].off, a[0].off)
            s = a[2] if name == "accumulate" else a[3]
            for i in range(k):
                x = self.load(self.deref(a[0], const(i)))
                if name == "inner_product":
                    x = self.sop("*", x, self.load(self.deref(a[2], const(i))))
                s = self.apply(a[3], [s, x]) if name == "accumulate" and len(a) > 3 else self.sop("+", s, x)
            return s
        if name == "find" and fq.startswith("std::"):
            a = [self.eval(x) for x in args]
            k = extent(a[1].off, a[0].off)
            off = a[1].off
            for i in reversed(range(k)):
                off = ite(self.eqval(self.load(self.deref(a[0], const(i))), a[2]), tm.add(a[0].off, const(i)), off)
            return Ptr(a[0].reg, off)
        if name in ("all_of", "any_of", "none_of"):
            a = [self.eval(x) for x in args]
            k = extent(a[1].off, a[0].off)
            r = FALSE if name != "all_of" else TRUE
            for i in range(k):
                q = self.truth(self.apply(a[2], [self.deref(a[0], const(i))]))
                r = land(r, q) if name == "all_of" else lor(r, q)
            return lnot(r) if name == "none_of" else r
        if name in ("begin", "end", "cbegin", "cend", "data", "size"):
            v = self.eval(args[0])
            if isinstance(v, (Arr, Vec)):
                if name == "size":
                    return const(len(v.reg.cells))
                if isinstance(v, Assoc):
                    return Node(v.reg, 0 if name in ("begin", "cbegin") else len(v.reg.cells))
                return Ptr(v.reg, ZERO if name in ("begin", "cbegin", "data") else const(len(v.reg.cells)))
        if name == "get":
            m = re.match(r"^(\d+)", n.get("ta", ""))
            v = self.load(self.lval(args[0]))
            if m and isinstance(v, Arr):
                return v.reg.cells[int(m.group(1))]
            if m and isinstance(v, Obj):
                return list(v.f.values())[int(m.group(1))]
        if name in ("make_unique", "make_shared"):
            t = split_targs("<" + n.get("ta", "") + ">")
            rt = strip_cvref(self.ty(n))
            inner = strip_cvref(split_targs(rt)[0])
            if inner.endswith("[]"):
                k = self.eval(args[0])
                if not tm.isc(k):
                    raise Unsupported("make_unique size")
                return Ptr(Region([Cell(self.zero(inner[:-2])) for _ in range(int(tm.cval(k)))], "heap"))
            return self.emplace(inner, args, t[1:], heap=True)
        if name in ("make_tuple", "tie", "make_pair", "forward_as_tuple"):
            vs = [self.e_any(a) for a in args]
            o = Obj(strip_cvref(self.ty(n)))
            for i, v in enumerate(vs):
                if name in ("tie", "forward_as_tuple") and isinstance(v, LVal):
                    if len(v.alts) != 1:
                        raise Unsupported("tie of an alternative")
                    v = v.alts[0][1]
                o.f["get%d" % i if name != "make_pair" else ("first", "second")[i]] = v if (name in ("tie", "forward_as_tuple") and isinstance(v, Cell)) else Cell(self.copy(self.load(v) if isinstance(v, (Cell, LVal)) else v))
            return o
        if name == "apply" and fq.startswith("std::"):
            f = self.eval(args[0])
            t = self.eval(args[1])
            return self.apply(f, list(t.f.values()) if isinstance(t, Obj) else list(t.reg.cells))
        if name in ("invoke",):
            f = self.eval(args[0])
            return self.apply(f, [self.e_any(a) for a in args[1:]])
        if name in ("Zero", "Constant", "Ones", "Identity", "Unit", "UnitX", "UnitY", "UnitZ") and "Eigen::" in fq:
            return self.eigen_static(fq, name, args, n)
        if name in ("conj", "real", "numext"):
            return self.eval(args[0])
        if name in ("Map", "MapAligned") and "Eigen" in fq:
            pass
        raise Unsupported("call to %s at %s" % (fq[:100], self.where(n)))

    def conv_num(self, v):
        return v

    def find_cmp(self, ta, tb):
        for f in self.F.by_n.get("operator<", ()):
            ps = [strip_cvref(f.types[p["t"]]) for p in f.params]
            if ps == [ta, tb]:
                return f
        raise Unsupported("operator< on %s" % ta)

    def apply(self, f, args):
        if isinstance(f, Closure):
            return self.call_closure(f, args)
        if isinstance(f, FnRef):
            fn = self.F.fns.get(f.node.get("u"))
            if fn:
                return self.call(fn, args)
        if isinstance(f, Opaque):
            m = f.methods.get("operator()")
            if m:
                return m(self, args, None)
        if isinstance(f, Obj):
            cands = [fn for fn in self.F.by_n.get("operator()", ()) if strip_cvref(fn.get("clst", "")) == strip_cvref(f.cls) and len(fn.params) == len(args)]
            if len(cands) > 1:
                cands = [fn for fn in cands if all(self.fits(fn.types[p["t"]], a) for p, a in zip(fn.params, args))]
            if len(cands) > 1:
                raise Unsupported("ambiguous operator() of %s" % f.cls)
            if cands:
                return self.call(cands[0], args, f)
            m = re.match(r"^std::(plus|minus|multiplies|divides)<", f.cls)
            if m:
                a, b = [self.load(x) if isinstance(x, (Cell, LVal)) else x for x in args]
                return self.sop({"plus": "+", "minus": "-", "multiplies": "*", "divides": "/"}[m.group(1)], a, b)
        raise Unsupported("call of %r" % (f,))

    def fits(self, t, a):
        """Can the argument be of (pointer to) type t, judged by what it points to?"""
        t = strip_cvref(t)
        if isinstance(a, (Cell, LVal)):
            a = self.load(a)
        while isinstance(a, Ptr):
            if not t.endswith("*"):
                m = re.match(r"^(?:class |struct )?std::(?:unique|shared)_ptr<", t)
                return bool(m)
            t = strip_cvref(t[:-1])
            if not a.reg.cells:
                return True
            a = a.reg.cells[0].v
        if isinstance(a, Obj):
            return t == strip_cvref(a.cls)
        if isinstance(a, T):
            return re.match(r"^(double|float|int|bool|long|unsigned|char|short|size_t)", t) is not None
        return True

    def eigen_static(self, fq, name, args, n):
        # dimensions from the class qualifier
        m = re.search(r"Eigen::(?:DenseBase|MatrixBase|PlainObjectBase)<(Eigen::(?:Matrix|Array)<.*>)\s*>::", fq)
        t = m.group(1) if m else strip_cvref(n.get("cls", ""))
        mm = re.search(r"Eigen::(?:Matrix|Array)<", t)
        if not mm:
            raise Unsupported("Eigen static " + fq[:80])
        a = split_targs(t[mm.start():])
        r, c = int(a[1]), int(a[2])
        av = [self.eval(x) for x in args]
        fill = ZERO
        if name == "Constant":
            fill = av.pop()
        if name == "Ones":
            fill = ONE
        dims = [int(tm.cval(x)) for x in av] if name != "Unit" else []
        if len(dims) == 2:
            r, c = dims
        elif len(dims) == 1:
            if c == 1 or r < 0 and c >= 0:
                r = dims[0]
            elif r == 1:
                c = dims[0]
            else:
                r = c = dims[0]
        if r < 0 or c < 0:
            raise Unsupported("dynamic Eigen static")
        sc = a[0]
        def lit(v):
            return self.promote(v, sc) if sc.startswith("ceres::Jet<") and isinstance(v, T) else v
        M = [[self.copy(lit(fill)) for _ in range(c)] for _ in range(r)]
        if name == "Identity":
            M = [[lit(ONE if i == j else ZERO) for j in range(c)] for i in range(r)]
        if name.startswith("Unit"):
            k = int(tm.cval(av[0])) if name == "Unit" else "XYZ".index(name[-1])
            M = [[lit(ONE if i + j == k else ZERO) for j in range(c)] for i in range(r)]
        return self.matfrom(M)


def _sum(l):
    s = ZERO
    for x in l:
        s = tm.add(s, x)
    return s


class _RecFrame:
    def __init__(self, r):
        self.types = r.types
        self.u = r.h["ct"]
        self.rt = ""
        self.f = r.h["f"]


class _VarFrame:
    def __init__(self, h):
        self.types = h["_types"]
        self.u = h["q"]
        self.rt = ""
        self.f = h["f"]


class _LambdaFrame:
    def __init__(self, outer, n, fn):
        self.types = outer.types
        self.u = n.get("u")
        self.rt = fn.rt if fn is not None and fn.types is outer.types else ""
        self.f = getattr(outer, "f", "")


class _CommaInit:
    def __init__(self, m):
        self.m, self.r, self.c, self.h = m, 0, 0, 1

    def push(self, ip, v):
        m = self.m
        if not isinstance(v, Mat):
            v = ip.matfrom([[v]])
        if self.c >= m.c:
            self.r += self.h
            self.c = 0
        self.h = v.r
        for i in range(v.r):
            for j in range(v.c):
                ip.write(m.at(self.r + i, self.c + j), ip.copy(v.grid[i][j].v))
        self.c += v.c
