"""C32: a problem is what the operations on it have made of it."""
import os, random, sys
import mpmath
from fractions import Fraction
from alg import *
import facts
from check import Check
from rotmath import mp
from props import c11, c13, c25, c31
from props.c25 import ints
from props.c27 import Wrong
RULE = ("interpretation of ProblemImpl over histories of additions, removals and settings, every choice of fast removal and ownership: what queries report == a model of the history; objects owned are deleted once, when nothing refers to them; "
        "Problem::Evaluate and EvaluateResidualBlock terms == the reference of C31 for the blocks asked for, state afterwards as before; misuse stops at a CHECK")
MORE = ["problem.cc", "problem_impl.cc", "residual_block.cc", "residual_block_utils.cc"]
M = mpmath.mpf
ADD, ADDM, RES, DELR, DELP, CONST, VARY, MAN, LOW, UP = range(10)
MAX = Fraction(sys.float_info.max)
FAST, OWNC, OWNL, OWNM, UNSAFE = range(5)
# the memory of the user: (where, size); cost functions (residuals, sizes); losses; manifolds (ambient, tangent)
BLOCKS = [(0, 2), (2, 1), (3, 3), (6, 2)]
COSTS = [(2, [2, 1]), (1, [1]), (3, [3, 2]), (1, [1, 3, 2]), (1, [2, 1]), (2, [1, 3, 2])]
LOSSES = 4
MANS = [(2, 1), (3, 2), (2, 2), (3, 0)]
START = [(ADD, 2, 3), (ADD, 0, 2), (RES, 0, 0, [0, 1]), (RES, 1, -1, [1]), (RES, 2, 1, [2, 0]), (RES, 3, 1, [1, 2, 3]), (RES, 1, 0, [1])]
HISTORIES = {
    "additions": START,
    "blocks added more than once": START + [(ADD, 1, 1), (ADD, 0, 2), (ADDM, 3, 2, 2), (RES, 0, -1, [3, 1])],
    "a residual removed": START + [(DELR, 0)],
    "residuals removed and added": START + [(DELR, 1), (DELR, 3), (RES, 5, 0, [1, 2, 3]), (DELR, 4)],
    "the last residual removed": START + [(DELR, 4), (DELR, 2)],
    "a parameter block removed": START + [(DELP, 1)],
    "a parameter block removed and added": START + [(DELP, 2), (ADD, 2, 3), (RES, 5, 0, [1, 2, 3])],
    "the first and the last block removed": START + [(DELP, 2), (DELP, 3), (DELR, 0)],
    "everything removed": START + [(DELP, 0), (DELP, 1), (DELP, 2), (DELP, 3)],
    "constant and variable": START + [(CONST, 0), (CONST, 1), (VARY, 0), (VARY, 3), (CONST, 1)],
    "constant, removed and added": START + [(CONST, 1), (LOW, 1, 0, 1), (DELP, 1), (ADD, 1, 1)],
    "manifolds": START + [(MAN, 0, 0), (MAN, 2, 1), (ADDM, 3, 2, 0)],
    "manifolds replaced and taken away": START + [(MAN, 0, 0), (MAN, 0, 2), (MAN, 2, 3), (MAN, 2, -1), (MAN, 3, 0), (MAN, 0, 0)],
    "a manifold nothing moves on": START + [(MAN, 2, 3), (CONST, 2), (VARY, 2)],
    "bounds": START + [(LOW, 0, 1, 0), (UP, 0, 0, 1), (UP, 2, 2, 0), (LOW, 2, 0, 1), (LOW, 0, 1, 1)],
    "bounds taken away": START + [(LOW, 0, 1, 0), (LOW, 0, 1, 2), (UP, 1, 0, 2), (UP, 2, 1, 0), (UP, 2, 1, 2), (LOW, 2, 2, 2)],
    "removal of a block with a manifold": START + [(MAN, 0, 0), (CONST, 0), (DELP, 0), (ADDM, 0, 2, 2), (RES, 4, 2, [0, 1])],
}
#  what has to stop: the last operation
MISUSE = {
    "a block over two others": [(ADD, 4, 2)],
    "a block over the end of another": [(ADD, 5, 1)],
    "a block that reaches the next": [(ADD, 6, 2)],
    "a block between two that reaches the next": [(ADD, 8, 2)],
    "a block over another, by a residual": [(RES, 6, -1, [0, 6])],
    "a block over another, with a manifold": [(ADDM, 6, 2, 0)],
    "a block in another size": [(ADD, 0, 3)],
    "a block in another size, by a residual": [(RES, 3, -1, [1, 0, 3])],
    "a block twice in a residual": [(RES, 6, -1, [0, 0])],
    "too few blocks": [(RES, 0, -1, [0])],
    "too many blocks": [(RES, 1, -1, [1, 0])],
    "a residual removed twice": [(DELR, 1), (DELR, 1)],
    "a residual removed with its block": [(DELP, 1), (DELR, 0)],
    "an unknown block removed": [(DELP, 7)],
    "a block removed twice": [(DELP, 0), (DELP, 0)],
    "an unknown block made constant": [(CONST, 7)],
    "an unknown block made variable": [(VARY, 7)],
    "a manifold for an unknown block": [(MAN, 7, 0)],
    "a manifold of another size": [(MAN, 0, 1)],
    "a lower bound for an unknown block": [(LOW, 7, 0, 0)],
    "an upper bound for an unknown block": [(UP, 7, 0, 0)],
    "a lower bound beyond the block": [(LOW, 0, 2, 0)],
    "an upper bound beyond the block": [(UP, 0, 2, 0)],
}
#  the memory of the user in the histories of MISUSE: 4 lies over blocks 0 and 1, 5 over the end of block 2, 6 reaches block 0, 7 is apart, 8 reaches block 3
ODD = [(2, 2), (4, 1), (5, 3), (9, 2), (3, 2), (7, 1), (1, 2), (12, 2), (8, 2)]
#      history, parameter blocks, residual blocks
ASKED = {
    "everything": (START, [], []),
    "some parameter blocks": (START, [2, 1], []),
    "one parameter block": (START, [0], []),
    "some residual blocks": (START, [], [3, 0]),
    "some of both": (START + [(MAN, 2, 1)], [3, 2], [2, 4, 0]),
    "constant blocks": (START + [(CONST, 0), (MAN, 2, 1)], [], []),
    "constant blocks among those asked for": (START + [(CONST, 0), (MAN, 3, 0)], [3, 0, 1], []),
    "constant blocks among the others": (START + [(CONST, 0), (MAN, 2, 3)], [3, 1], [3, 4, 0]),
    "after removals": (START + [(DELR, 0), (DELP, 3), (RES, 4, 2, [0, 1])], [], []),
    "after removals, some blocks": (START + [(DELP, 0), (RES, 5, 2, [1, 2, 3]), (LOW, 2, 1, 0)], [3, 1], []),
    "blocks without residuals": (START[:2] + [(ADD, 3, 2), (RES, 0, 0, [0, 1])], [], []),
    "residuals of other blocks": (START, [3], [1, 0]),
}


def flat(h):
    out = [len(h)]
    for op in h:
        out.append(op[0])
        for q in op[1:]:
            out += [len(q)] + q if isinstance(q, list) else [q]
    return out


class Model:
    def __init__(self, blocks, costs, mans, lo, hi):
        self.at, self.costs, self.mans, self.lo, self.hi = blocks, costs, mans, lo, hi
        self.blocks, self.res, self.made, self.removed = [], [], 0, [False, False]
        self.p = {}
        self.owned_m, self.used_c, self.used_l = set(), set(), set()

    def add(self, b):
        if b not in self.p:
            self.p[b] = {"const": False, "man": -1, "lo": [-MAX] * self.at[b][1], "hi": [MAX] * self.at[b][1]}
            self.blocks.append(b)

    def play(self, h):
        for op, *a in h:
            if op in (ADD, ADDM):
                self.add(a[0])
                if op == ADDM:
                    self.man(a[0], a[2])
            elif op == RES:
                for b in a[2]:
                    self.add(b)
                self.res.append((self.made, a[0], a[1], a[2]))
                self.used_c.add(a[0])
                if a[1] >= 0:
                    self.used_l.add(a[1])
                self.made += 1
            elif op == DELR:
                self.removed[1] |= True
                self.res = [r for r in self.res if r[0] != a[0]]
            elif op == DELP:
                self.removed[0] |= True
                self.removed[1] |= any(a[0] in r[3] for r in self.res)
                self.res = [r for r in self.res if a[0] not in r[3]]
                self.blocks.remove(a[0])
                del self.p[a[0]]
            elif op == CONST:
                self.p[a[0]]["const"] = True
            elif op == VARY:
                self.p[a[0]]["const"] = False
            elif op == MAN:
                self.man(a[0], a[1])
            elif op == LOW:
                self.p[a[0]]["lo"][a[1]] = self.lo[a[2]]
            elif op == UP:
                self.p[a[0]]["hi"][a[1]] = self.hi[a[2]]
        return self

    def man(self, b, m):
        self.p[b]["man"] = m
        if m >= 0:
            self.owned_m.add(m)

    def tan(self, b):
        m = self.p[b]["man"]
        return self.at[b][1] if m < 0 else self.mans[m][1]

    def still(self, b):
        return self.p[b]["const"] or self.tan(b) == 0


def run():
    sys.setrecursionlimit(200000)
    C = Check("C32", RULE, floor=40)
    F = facts.load([facts.witness("problem.cc")] + [facts.REPO + "/internal/ceres/" + f for f in dict.fromkeys(c31.FILES + c31.MORE + MORE) if os.path.exists(facts.REPO + "/internal/ceres/" + f)])
    W = {f.n: f for f in F.fns.values() if f.q.startswith("w::") and f.q.count("::") == 1}
    r = rng("c32")
    lo, hi = [Fraction(-5, 4), Fraction(-7, 3), -MAX], [Fraction(3, 2), Fraction(9, 7), MAX]
    point = {}

    def val(name):
        if name not in point:
            point[name] = mp(r.num(-2, 2))
        return point[name]

    class Look(dict):
        def __missing__(self, k):
            return val(k)

    def ob(key, loc, f):
        def go():
            try:
                f()
            except (Wrong, UninitRead) as ex:
                C.violation(key, loc, str(ex))
                return
            C.passed(key)
        guarded(C, key, go)

    def interp():
        ip = Interp(F, 12000000)
        c11.hooks(ip, c31.NAMES)
        ip.hooks["std::thread::hardware_concurrency"] = lambda ip, recv, a, n: const(8)
        for n in ("StrAppend", "StrAppendFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: None
        for n in ("StrCat", "StrFormat"):
            ip.hooks["absl::" + n] = lambda ip, recv, args, nd: Opaque("string")
        ip.deletes = []
        marks = []
        ip.hooks["w::Mark"] = lambda ip, recv, a, n: marks.append(list(ip.deletes))
        return ip, marks

    def Rho(l, k, s):
        a = M(1) / (l + 2)
        t = 1 + a * s
        if int(round(float(l))) % 2 == 0:
            return (mpmath.log(t) / a, 1 / t, -a / t ** 2)[int(round(float(k)))]
        return (s + a * s * s / 40 - 9, 1 + a * s / 20, a / 20)[int(round(float(k)))]

    FN = {"A": lambda c, i, b, k: mpmath.sin(7 * c + 3 * i + 5 * b + k + 1) + (1 if int(round(float(k))) % 2 else -1), "Ok": lambda c: M(1), "Rho": Rho, "PJ": lambda b, i, k, x: mpmath.sin(2 * x + b + 3 * i + 5 * k) + 2, "OkPJ": lambda b, x: M(1),
          "Pl": lambda b, i, x, d: mpmath.sin(3 * x + b + i) + d}

    def env_of(fn):
        e = tm.Env({}, fn)
        e.v = Look()
        return e

    env = env_of(FN)

    def call(ip, name, args, e=env):
        try:
            v = ip.call(W[name], args)
        except OutOfRange as ex:
            raise Wrong(ex.msg)
        if any(a is not FALSE and e.ev(a) for a in ip.aborts):
            raise Wrong("a CHECK fails")
        return v

    def setting(o, blocks, costs=None, losses=LOSSES):
        out = [len(blocks)]
        for a, n in blocks:
            out += [a, n]
        costs = costs or (COSTS2 if blocks is ODD else COSTS)
        out.append(len(costs))
        for n, sizes in costs:
            out += [n, len(sizes)] + sizes
        out += [losses, len(MANS)]
        for m in MANS:
            out += list(m)
        return out

    def any_history(q, length):
        """operations in any order, those in misuse left out; objects that may have been deleted are not used again"""
        costs, losses, h = [], 0, []
        m = Model(BLOCKS, costs, MANS, lo, hi)
        pick = lambda vs: vs[q.randrange(len(vs))]
        while len(h) < length:
            op = pick([ADD, ADDM, RES, RES, RES, RES, DELR, DELR, DELP, CONST, VARY, MAN, LOW, UP])
            b = q.randrange(len(BLOCKS))
            size = BLOCKS[b][1]
            fit = [i for i, x in enumerate(MANS) if x[0] == size] + [-1]
            if op == ADD:
                new = (ADD, b, size)
            elif op == ADDM:
                new = (ADDM, b, size, pick(fit))
            elif op == RES:
                live = sorted({(x[1], tuple(x[3])) for x in m.res})
                loss = sorted({x[2] for x in m.res if x[2] >= 0})
                if live and q.randrange(3) == 0:           # shares its cost function with another
                    c, bs = pick(live)
                    same_size = lambda k: [j for j in range(len(BLOCKS)) if BLOCKS[j][1] == BLOCKS[k][1]]
                    bs = [pick(same_size(k)) for k in bs]
                    if len(set(bs)) < len(bs):
                        continue
                else:
                    bs = list(range(len(BLOCKS)))
                    for i in range(len(bs)):
                        j = q.randrange(i, len(bs))
                        bs[i], bs[j] = bs[j], bs[i]
                    bs = bs[:q.randrange(1, len(bs) + 1)]
                    c = len(costs)
                    costs.append((q.randrange(1, 4), [BLOCKS[k][1] for k in bs]))
                k = q.randrange(3)
                if k == 0:
                    l = -1
                elif k == 1 and loss:
                    l = pick(loss)
                else:
                    l = losses
                    losses += 1
                new = (RES, c, l, list(bs))
            elif op == DELR:
                if not m.res:
                    continue
                new = (DELR, pick(m.res)[0])
            elif b not in m.p:
                continue
            elif op == DELP:
                if q.randrange(2):
                    continue
                new = (DELP, b)
            elif op in (CONST, VARY):
                new = (op, b)
            elif op == MAN:
                new = (MAN, b, pick(fit))
            else:
                new = (op, b, q.randrange(size), q.randrange(3))
            h.append(new)
            m.play([new])
        return h, costs, losses

    COSTS2 = COSTS + [(1, [2, 2])]
    arr = lambda n, vs: array(n, len(vs), [const(v) for v in vs])

    class Reader:
        def __init__(self, a, e):
            self.a, self.e, self.i = a, e, 0

        def __call__(self, what):
            v = self.a.reg.cells[self.i].v
            self.i += 1
            if not isinstance(v, T):
                raise Wrong(what + " is unwritten")
            return self.e.ev(v)

        def is_(self, want, what):
            v = self(what)
            if v != want:
                raise Wrong("%s is %s, not %s" % (what, fmt(v), fmt(want)))

        def list(self, what):
            return [int(self(what)) for _ in range(int(self("the number of " + what)))]

    def told(m, out, bounds, e):
        q, b = Reader(out, e), Reader(bounds, e)
        q.is_(len(m.blocks), "NumParameterBlocks")
        q.is_(sum(m.at[k][1] for k in m.blocks), "NumParameters")
        q.is_(len(m.res), "NumResidualBlocks")
        q.is_(sum(m.costs[k[1]][0] for k in m.res), "NumResiduals")
        for k, (_, n) in enumerate(m.at):
            who = " of block %d" % k
            q.is_(1 if k in m.p else 0, "HasParameterBlock" + who)
            if k not in m.p:
                continue
            q.is_(n, "ParameterBlockSize" + who)
            q.is_(m.tan(k), "ParameterBlockTangentSize" + who)
            q.is_(1 if m.still(k) else 0, "IsParameterBlockConstant" + who)
            q.is_(m.p[k]["man"], "GetManifold" + who)
            q.is_(1 if m.p[k]["man"] >= 0 else 0, "HasManifold" + who)
            for i in range(n):
                b.is_(m.p[k]["lo"][i], "the lower bound of component %d%s" % (i, who))
                b.is_(m.p[k]["hi"][i], "the upper bound of component %d%s" % (i, who))
            of = q.list("residual blocks" + who)
            want = sorted(x[0] for x in m.res if k in x[3])
            if sorted(of) != want:
                raise Wrong("GetResidualBlocksForParameterBlock%s is %s, not %s" % (who, of, want))
        got = q.list("parameter blocks")
        if sorted(got) != sorted(m.blocks):
            raise Wrong("GetParameterBlocks is %s, not %s" % (got, sorted(m.blocks)))
        by = {x[0]: x for x in m.res}
        order = []
        for _ in range(int(q("the number of residual blocks"))):
            i = int(q("a residual block"))
            if i not in by:
                raise Wrong("GetResidualBlocks reports a residual block that is not there")
            order.append(i)
            q.is_(by[i][1], "the cost function of residual block %d" % i)
            q.is_(by[i][2], "the loss function of residual block %d" % i)
            bs = q.list("blocks of residual block %d" % i)
            if bs != by[i][3]:
                raise Wrong("the parameter blocks of residual block %d are %s, not %s" % (i, bs, by[i][3]))
        if sorted(order) != sorted(by):
            raise Wrong("GetResidualBlocks is %s, not %s" % (order, sorted(by)))
        if not m.removed[1] and order != sorted(by):
            raise Wrong("residual blocks are in the order %s, not that of their addition" % order)
        progs = []
        for i in range(len(m.blocks)):
            progs.append(int(q("a parameter block")))
            q.is_(i, "the index of parameter block %d of the program" % i)
        if sorted(progs) != sorted(m.blocks):
            raise Wrong("the program has the parameter blocks %s, not %s" % (progs, sorted(m.blocks)))
        if not m.removed[0] and progs != m.blocks:
            raise Wrong("parameter blocks are in the order %s, not that of their addition, %s" % (progs, m.blocks))
        for i in range(len(m.res)):
            q.is_(i, "the index of residual block %d of the program" % i)
        C.count("queries", q.i + b.i)
        return progs, order

    def who(ip, v):
        if not isinstance(v, Obj):
            return None
        k = v.cls.split("::")[-1]
        return (k, int(env.ev(v.f["id"].v))) if k in ("Cost", "Loss", "Man") else (k, id(v))

    def buffers(m):
        return array("out", 400, [UNINIT] * 400), array("bounds", 40, [UNINIT] * 40)

    def play(h, o, costs=COSTS, losses=LOSSES):
        ip, marks = interp()
        m = Model(BLOCKS, costs, MANS, lo, hi).play(h)
        out, bounds = buffers(m)
        u = array("u", 12, [tm.sym("u%d" % i) for i in range(12)])
        call(ip, "Play", [u, ints("o", o), ints("s", setting(o, BLOCKS, costs, losses) + flat(h)), arr("lo", lo), arr("hi", hi), out, bounds])
        told(m, out, bounds, env)
        C.count("operations", len(h))
        before, told_, after = [[who(ip, v) for v in x] for x in marks]
        if len(before) != len(told_):
            raise Wrong("a query deletes something")
        for name, own, live, ever in (("Cost", o[OWNC], {x[1] for x in m.res}, m.used_c), ("Loss", o[OWNL], {x[2] for x in m.res if x[2] >= 0}, m.used_l), ("Man", o[OWNM], {p["man"] for p in m.p.values() if p["man"] >= 0}, m.owned_m)):
            what = {"Cost": "cost function", "Loss": "loss function", "Man": "manifold"}[name]
            for d in before:
                if d[0] == name and d[1] in live:
                    raise Wrong("%s %d is deleted although it is still used" % (what, d[1]))
            end = sorted(d[1] for d in after if d[0] == name)
            want = sorted(ever) if own else []
            if end != want:
                raise Wrong("the %ss deleted in the end are %s, not %s" % (what, end, want))
        for name, n in (("ResidualBlock", m.made), ("Program", 1)):
            k = sum(1 for d in after if d[0] == name)
            if k != n and (name == "ResidualBlock" or k > 1):
                raise Wrong("%d of %d objects of type %s are deleted" % (k, n, name))

    PI = "ceres::internal::ProblemImpl"
    L = lambda n: loc_of(F, PI, n)
    for nm, h in HISTORIES.items():
        kinds = {op[0] for op in h[len(START):]}
        loc = L("RemoveParameterBlock" if DELP in kinds else "RemoveResidualBlock" if DELR in kinds else "SetManifold" if MAN in kinds else "AddResidualBlock")
        for o in ([0, 1, 1, 1, 0], [1, 1, 1, 1, 0], [0, 0, 0, 0, 0], [1, 1, 0, 1, 1], [1, 0, 1, 0, 0]):
            ob("%s: fast removal %s, owns %s%s" % (nm, "on" if o[0] else "off", " and ".join(w for w, q in zip(("costs", "losses", "manifolds"), o[1:4]) if q) or "nothing", ", no safety checks" if o[4] else ""), loc, lambda h=h, o=o: play(h, o))

    for i in range(400 if THOROUGH else 60):
        def go(i=i):
            q = random.Random("c32 %d" % i)
            play_any = any_history(q, 8 + i % 17)
            play(play_any[0], [i % 2, 1 if i % 5 else 0, 1 if i % 7 else 0, 1 if i % 3 else 0, 0], *play_any[1:])
        ob("any operations, history %d" % i, L(("RemoveResidualBlock", "RemoveParameterBlock", "AddResidualBlock")[i % 3]), go)

    # --- misuse
    for nm, ops in MISUSE.items():
        for fast in (0, 1):
            def go(nm=nm, ops=ops, fast=fast):
                ip, _ = interp()
                u = array("u", 16, [tm.sym("u%d" % i) for i in range(16)])
                try:
                    ip.call(W["Misuse"], [u, ints("o", [fast, 1, 1, 1, 0]), ints("s", setting([fast, 1, 1, 1, 0], ODD) + flat(START + ops)), arr("lo", lo), arr("hi", hi)])
                except (OutOfRange, Unsupported, UninitRead):
                    if not any(a is not FALSE and env.ev(a) for a in ip.aborts):
                        raise
                C.count("misuses")
                if not any(a is not FALSE and env.ev(a) for a in ip.aborts):
                    raise Wrong("goes on")
            op = ops[-1][0]
            ob("misuse, fast removal %s: %s" % ("on" if fast else "off", nm), L({ADD: "InternalAddParameterBlock", ADDM: "InternalAddParameterBlock", RES: "AddResidualBlock", DELR: "RemoveResidualBlock", DELP: "RemoveParameterBlock", CONST: "SetParameterBlockConstant",
                                                                                VARY: "SetParameterBlockVariable", MAN: "SetManifold", LOW: "SetParameterLowerBound", UP: "SetParameterUpperBound"}[op]), go)

    # --- evaluation
    def block_ref(m, x, fn, apply):
        """cost, residuals and, by block, Jacobian of a residual block at the memory of the user"""
        _, c, l, bs = x
        u = lambda b, k: val("u%d" % (m.at[b][0] + k))
        n = m.costs[c][0]
        rr = [sum(fn["A"](c, i, j, k) * (u(b, k) + u(b, k) ** 2 / 2) for j, b in enumerate(bs) for k in range(m.at[b][1])) for i in range(n)]
        J = []
        for j, b in enumerate(bs):
            Ja = [[fn["A"](c, i, j, k) * (1 + u(b, k)) for k in range(m.at[b][1])] for i in range(n)]
            q = m.p[b]["man"]
            if q >= 0:
                Ja = [[sum(row[k] * fn["PJ"](q, k, t, u(b, k)) for k in range(m.at[b][1])) for t in range(m.mans[q][1])] for row in Ja]
            J.append(Ja)
        s = sum(v * v for v in rr)
        if l < 0 or not apply:
            return s / 2, rr, J
        rho = [fn["Rho"](l, k, s) for k in range(3)]
        alpha = M(0) if s == 0 or rho[2] <= 0 else 1 - mpmath.sqrt(max(M(0), 1 + 2 * s * rho[2] / rho[1]))
        q1 = mpmath.sqrt(rho[1])
        J = [[[q1 * (Ja[i][k] - (alpha / s if s else 0) * rr[i] * sum(rr[p] * Ja[p][k] for p in range(n))) for k in range(len(Ja[0]))] for i in range(n)] if Ja[0] else Ja for Ja in J]
        return rho[0] / 2, [q1 / (1 - alpha) * v for v in rr], J

    def same(e, a, want, what):
        for i, w in enumerate(want):
            g = a.reg.cells[i].v
            if not isinstance(g, T):
                raise Wrong("entry %d of the %s is unwritten" % (i, what))
            if not tm.close(e.ev(g), w, M("1e-12")):
                raise Wrong("entry %d of the %s is %s, not %s" % (i, what, fmt(e.ev(g)), fmt(w)))

    un = lambda n, k: array(n, max(1, k), [UNINIT] * max(1, k))
    memory = lambda: array("u", 12, [tm.sym("u%d" % i) for i in range(12)])

    def unchanged(u):
        for i in range(12):
            if not tm.close(env.ev(u.reg.cells[i].v), val("u%d" % i), M("1e-15")):
                raise Wrong("the memory of the user changes")

    def ask(h, pb, rb, mask, apply, o, watch, bad=None, costs=COSTS, losses=LOSSES):
        ip, _ = interp()
        ip.decide = lambda q: e.ev(q)
        fn = dict(FN, Ok=lambda c: M(0 if bad is not None and int(round(float(c))) == bad else 1))
        e = env_of(fn)
        m = Model(BLOCKS, costs, MANS, lo, hi).play(h)
        out, bounds = buffers(m)
        u = memory()
        rows, cols = sum(m.costs[x[1]][0] for x in m.res), sum(m.at[b][1] for b in m.blocks)
        cost, res, grad, dense, sizes, calls, seen = un("cost", 1), un("res", rows), un("grad", cols), un("dense", rows * cols), array("sizes", 4, [const(0)] * 4), array("calls", 3, [const(0)] * 3), un("seen", 12)
        ok = call(ip, "Ask", [u, ints("o", o), ints("s", setting(o, BLOCKS, costs, losses) + flat(h)), arr("lo", lo), arr("hi", hi), const(watch), ints("e", [mask, int(apply), len(pb)] + pb + [len(rb)] + rb), cost, res, grad, dense, sizes, calls, seen, const(12), out, bounds], e)
        progs, order = told(m, out, bounds, e)
        unchanged(u)
        C.count("evaluations")
        if bad is not None:
            if mask and e.ev(ok) != 0:
                raise Wrong("succeeds although a cost function fails")
            return
        if e.ev(ok) != 1:
            raise Wrong("fails although nothing it calls fails")
        by = {x[0]: x for x in m.res}
        bl, at, n = pb or progs, {}, 0
        for b in bl:
            at[b] = n
            n += m.tan(b)
        total, rs, J = M(0), [], []
        for i in rb or order:
            c, rr, Jb = block_ref(m, by[i], fn, apply)
            total += c
            rs += rr
            for k in range(len(rr)):
                row = [M(0)] * n
                for b, Ja in zip(by[i][3], Jb):
                    if b in at and not m.still(b):
                        for t, v in enumerate(Ja[k]):
                            row[at[b] + t] += v
                J.append(row)
        same(e, sizes, [len(rs) if mask & 2 else 0, n if mask & 4 else 0] + ([len(rs), n] if mask & 8 else [0, 0]), "sizes (residuals, gradient, rows, columns)")
        if mask & 1:
            same(e, cost, [total], "cost")
        if mask & 2:
            same(e, res, rs, "residuals")
        if mask & 4:
            same(e, grad, [sum(J[i][k] * rs[i] for i in range(len(rs))) for k in range(n)], "gradient")
        if mask & 8:
            same(e, dense, [v for row in J for v in row], "Jacobian")
        if watch:
            same(e, calls, [1, 1 if mask & 12 else 0, 1] if mask else [0], "calls of the callback (number, Jacobians, new point)")
            if mask:
                same(e, seen, [val("u%d" % i) for i in range(12)], "memory of the user at the callback")

    for nm, (h, pb, rb) in ASKED.items():
        for mask in range(16):
            def go(h=h, pb=pb, rb=rb, mask=mask):
                for apply in (True, False) if THOROUGH or mask in (1, 11, 15) else (True,):
                    ask(h, pb, rb, mask, apply, [mask % 2, 1, 1, 1, 0], 1 if mask % 3 else 0)
            what = " and ".join(w for b, w in ((1, "cost"), (2, "residuals"), (4, "gradient"), (8, "Jacobian")) if mask & b) or "nothing"
            ob("evaluate, %s: %s" % (what, nm), L("Evaluate"), go)
    for i in range(200 if THOROUGH else 30):
        def go(i=i):
            q = random.Random("c32 asked %d" % i)
            while True:
                h, costs, losses = any_history(q, 10 + i % 12)
                m = Model(BLOCKS, costs, MANS, lo, hi).play(h)
                if m.res:
                    break
            some = lambda vs: [v for v in sorted(vs, key=lambda v: q.random()) if q.random() < 0.6] if q.random() < 0.7 else []
            ask(h, some(m.blocks), some([x[0] for x in m.res]), (15, 14, 7, 9, 6)[i % 5], i % 4 != 3, [i % 2, 1, 1, 1, 0], 1, None, costs, losses)
        ob("evaluate after any operations, history %d" % i, L("Evaluate"), go)
    for nm in ("some parameter blocks", "constant blocks among the others", "after removals, some blocks"):
        def go(nm=nm):
            h, pb, rb = ASKED[nm]
            for mask in (1, 6, 15):
                ask(h, pb, rb, mask, True, [1, 1, 1, 1, 0], 1, bad=3 if nm[0] != "a" else 5)
        ob("evaluate, a cost function fails: %s" % nm, L("Evaluate"), go)

    def ask_one(h, b, apply, fresh, mask, wanted, o, watch, freeze=-1):
        ip, _ = interp()
        m = Model(BLOCKS, COSTS, MANS, lo, hi).play(h + ([(CONST, freeze)] if freeze >= 0 else []))
        x = next(q for q in m.res if q[0] == b)
        u = memory() if freeze < 0 else array("u", 12, [tm.sym("z%d" % i) for i in range(12)])
        n = m.costs[x[1]][0]
        jac = [un("jac%d" % k, n * 3) for k in range(4)]
        cost, res, calls, seen = un("cost", 1), un("res", n), array("calls", 3, [const(0)] * 3), un("seen", 12)
        ok = call(ip, "AskOne", [u, ints("o", o), ints("s", setting(o, BLOCKS) + flat(h)), arr("lo", lo), arr("hi", hi), const(watch), const(b), const(apply), const(fresh), const(mask), const(wanted), cost, res, array("jac", 4, jac), calls, seen, const(12), const(freeze), memory()])
        unchanged(u)
        C.count("evaluations of one residual block")
        if watch:
            same(env, calls, [1, 1 if mask & 4 else 0, 1 if fresh else 0], "calls of the callback (number, Jacobians, new point)")
        if mask & 4 and any(m.still(q) for k, q in enumerate(x[3]) if wanted >> k & 1):
            if env.ev(ok) != 0:
                raise Wrong("succeeds although the Jacobian of a constant block is asked for")
            return
        if env.ev(ok) != 1:
            raise Wrong("fails although nothing it calls fails")
        c, rr, J = block_ref(m, x, FN, apply)
        if mask & 1:
            same(env, cost, [c], "cost")
        if mask & 2:
            same(env, res, rr, "residuals")
        for k in range(len(x[3])):
            if mask & 4 and wanted >> k & 1:
                same(env, jac[k], [v for row in J[k] for v in row], "Jacobian of block %d" % k)
            elif any(isinstance(q.v, T) for q in jac[k].reg.cells):
                raise Wrong("the Jacobian of block %d is written although it was not asked for" % k)

    for nm, h in (("plain", START), ("manifolds and bounds", START + [(MAN, 0, 0), (MAN, 2, 1), (UP, 2, 1, 0)]), ("constant blocks", START + [(CONST, 0), (MAN, 2, 3)]), ("after removals", START + [(DELR, 1), (DELP, 3), (RES, 4, 2, [0, 1])])):
        for b in ((0, 2, 3) if nm[0] != "a" else (0, 2, 5)):
            def go(h=h, b=b):
                for mask in range(8):
                    for wanted in (range(8) if THOROUGH or mask == 7 else (0, 5, 7)) if mask & 4 else (0,):
                        ask_one(h, b, bool((mask + wanted) % 3), bool(mask % 2), mask, wanted, [mask % 2, 1, 1, 1, 0], 1)
            ob("one residual block, %s: %d" % (nm, b), L("EvaluateResidualBlock"), go)
            def frozen(h=h, b=b):
                for k in next(q for q in Model(BLOCKS, COSTS, MANS, lo, hi).play(h).res if q[0] == b)[3]:
                    for mask in (1, 3):
                        ask_one(h, b, True, True, mask, 0, [0, 1, 1, 1, 0], 0, k)
            ob("one residual block, constant since the last evaluation, %s: %d" % (nm, b), L("EvaluateResidualBlock"), frozen)
    return C
