"""Several threads of control in the interpreter.  Threads run one at a time and hand over at synchronisation operations; which
one goes on is decided by `choose`.  Accesses to cells are ordered by vector clocks: two accesses of a cell by different threads,
one of them a write, that no lock, atomic or thread start/join orders are reported as a race."""
import threading
import absint
from absint import Cell, OutOfRange

threading.stack_size(512 << 20)
SLOT = absint.Cell.__dict__["v"]


class Stop(BaseException):
    pass


class Th:
    def __init__(self, k):
        self.k = k
        self.ev = threading.Event()
        self.pred = None
        self.done = False
        self.state = None
        self.vc = {k: 1}


class Coop:
    def __init__(self, ip, choose, races=True):
        self.ip, self.choose, self.races_on = ip, choose, races
        ip.coop = self
        self.ths = [Th(0)]
        self.cur = self.ths[0]
        self.fail = None
        self.stop = False
        self.hb = {}            # id of a sync object -> (object, clock)
        self.owner = {}         # id of a mutex -> (object, thread)
        self.waiting = {}       # id of a condition -> waiting threads
        self.cells = {}         # id of a cell -> [cell, last write (thread, clock, where), {thread: (clock, where)}]
        self.atomics = {}
        self.dead = {}          # id of a cell -> (cell, function) of local variables that are gone
        self.races = []
        self.quiet = 0
        self.switches = 0

    # -------------------------------------------------------------- scheduling
    def switch(self, t):
        me = self.cur
        me.state = (self.ip.live, self.ip.frames)
        if t is not me:
            self.switches += 1
            self.cur = t
            t.ev.set()
            me.ev.wait()
            me.ev.clear()
        self.ip.live, self.ip.frames = me.state
        if self.stop:
            raise Stop()
        if me.k == 0 and self.fail is not None:
            raise self.fail

    def point(self, pred=None, what=""):
        """The current thread may be interrupted here, and goes on only once pred holds."""
        me = self.cur
        me.pred = pred
        t = self.pick()
        if t is None:
            self.fail = OutOfRange("deadlock: every thread waits" + (" (%s)" % what if what else ""))
            if me.k == 0:
                raise self.fail
            t = self.ths[0]
        self.switch(t)
        me.pred = None

    def pick(self):
        self.quiet += 1
        r = [t for t in self.ths if not t.done and (t.pred is None or t.pred())]
        self.quiet -= 1
        return self.choose(r, self.cur) if r else None

    def spawn(self, fn):
        t = Th(len(self.ths))
        t.vc.update(self.cur.vc)
        t.vc[t.k] = 1
        self.tick()
        self.ths.append(t)

        def go():
            t.ev.wait()
            t.ev.clear()
            if self.stop:
                return
            self.ip.live, self.ip.frames = absint.TRUE, []
            try:
                fn()
            except Stop:
                return
            except BaseException as e:
                if self.fail is None:
                    self.fail = e
            t.done = True
            if self.fail is not None:
                n = self.ths[0]
            else:
                n = self.pick()
                if n is None:
                    self.fail = OutOfRange("deadlock: every thread waits")
                    n = self.ths[0]
            self.cur = n
            n.ev.set()
        t.py = threading.Thread(target=go, daemon=True)
        t.py.start()
        self.point()
        return t

    def join(self, t):
        self.point(lambda: t.done, "join")
        self.merge(t.vc)

    def run(self, fn):
        """fn in the main thread; afterwards whatever can still run does."""
        cls = absint.Cell
        cls.v = property(self.get, self.put)
        try:
            r = fn()
            if self.fail is not None:
                raise self.fail
            left = [t for t in self.ths[1:] if not t.done]
            return r, left
        finally:
            cls.v = SLOT
            self.stop = True
            for t in self.ths[1:]:
                t.ev.set()
                t.py.join(20)

    # -------------------------------------------------------------- order
    def tick(self):
        self.cur.vc[self.cur.k] += 1

    def merge(self, vc):
        m = self.cur.vc
        for k, v in vc.items():
            if v > m.get(k, 0):
                m[k] = v

    def acquire(self, o):
        if id(o) in self.hb:
            self.merge(self.hb[id(o)][1])

    def release(self, o):
        vc = dict(self.hb[id(o)][1]) if id(o) in self.hb else {}
        for k, v in self.cur.vc.items():
            if v > vc.get(k, 0):
                vc[k] = v
        self.hb[id(o)] = (o, vc)
        self.tick()

    def where(self):
        fr = self.ip.frames
        for f in reversed(fr):
            if hasattr(f.fn, "q"):
                return f.fn.q
        return "?"

    def access(self, o, write):
        if self.quiet or not self.races_on or len(self.ths) < 2 or self.ip.live is absint.FALSE:
            return
        me = self.cur
        rec = self.cells.get(id(o))
        if rec is None:
            rec = self.cells[id(o)] = [o, None, {}]
        w = rec[1]
        if w and w[0] != me.k and me.vc.get(w[0], 0) < w[1]:
            self.race(w[2], "written", "written" if write else "read", o)
        if write:
            for k, (c, at) in rec[2].items():
                if k != me.k and me.vc.get(k, 0) < c:
                    self.race(at, "read", "written", o)
            rec[1], rec[2] = (me.k, me.vc[me.k], self.where()), {}
        else:
            rec[2][me.k] = (me.vc[me.k], self.where())

    def race(self, at, a, b, o):
        m = "%s in %s and %s in %s by another thread with nothing to order them" % (a, at, b, self.where())
        if m not in self.races:
            self.races.append(m)

    def gone(self, fr):
        for c, _ in fr.own.values():
            self.dead[id(c)] = (c, fr.fn.q)

    def alive(self, c):
        if id(c) in self.dead and not self.quiet and not self.stop:
            raise OutOfRange("%s uses a local variable of %s, which has returned" % (self.where(), self.dead[id(c)][1]))

    def get(self, c):
        self.alive(c)
        if id(c) not in self.atomics:
            self.access(c, False)
        return SLOT.__get__(c)

    def put(self, c, v):
        self.alive(c)
        if id(c) not in self.atomics:
            self.access(c, True)
        SLOT.__set__(c, v)

    # -------------------------------------------------------------- operations
    def atomic(self, cell):
        """The cell of an atomic is about to be used."""
        self.atomics[id(cell)] = cell
        self.point()
        self.acquire(cell)

    def lock(self, m):
        self.point(lambda: id(m) not in self.owner, "lock")
        self.owner[id(m)] = (m, self.cur)
        self.acquire(m)

    def unlock(self, m):
        self.release(m)
        self.owner.pop(id(m), None)
        self.point()

    def wait(self, cv, m, pred):
        while not pred():
            me = self.cur
            q = self.waiting.setdefault(id(cv), [])
            q.append(me)
            self.release(m)
            self.owner.pop(id(m), None)
            self.point(lambda: me not in q and id(m) not in self.owner, "wait for a condition")
            self.owner[id(m)] = (m, me)
            self.acquire(m)

    def notify(self, cv, every):
        q = self.waiting.get(id(cv), [])
        if every:
            del q[:]
        elif q:
            w = self.choose(list(q), None)
            q.remove(w)
        self.point()
