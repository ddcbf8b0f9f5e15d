"""Facts driver: runs the clang front end (tools/cfacts) over translation units
of /repo (and small witness units that only instantiate /repo's templates) and
loads the resolved program.  Results are cached by content of every file the
unit reads, so an unchanged unit is not parsed twice; nothing is executed."""
import hashlib, json, os, subprocess, sys, concurrent.futures, fcntl
from functools import lru_cache

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOL = os.path.join(VERIF, ".build", "cfacts")
FLAGS = ["-std=c++17", "-w", "-fno-color-diagnostics", "-DCERES_STATIC_DEFINE", "-Dceres_EXPORTS",
         "-DVF_ANALYSIS",
         "-I" + VERIF + "/stubs", "-I" + REPO + "/internal", "-I" + REPO + "/include",
         "-isystem", "/usr/include/eigen3"]


class AnalysisBroken(Exception):
    """The analysis could not give an answer (error exit, never a verdict)."""


def build_tool():
    lock = os.path.join(VERIF, ".build")
    os.makedirs(lock, exist_ok=True)
    with open(os.path.join(lock, "lock"), "w") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(VERIF, "tools", "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the fact extractor:\n" + r.stderr[-2000:])


@lru_cache(None)
def file_hash(path):
    try:
        with open(path, "rb") as fh:
            return hashlib.sha256(fh.read()).hexdigest()
    except OSError:
        return "missing"


@lru_cache(None)
def tool_hash():
    return file_hash(os.path.join(VERIF, "tools", "cfacts.cc"))


def _index_path(tu, flags):
    h = hashlib.sha256((tu + "\0" + "\0".join(flags) + tool_hash()).encode()).hexdigest()[:24]
    return os.path.join(CACHE, h + ".idx")


def _lookup(tu, flags):
    try:
        with open(_index_path(tu, flags)) as fh:
            entries = json.load(fh)
    except (OSError, ValueError):
        return None
    for e in entries:
        if all(file_hash(p) == h for p, h in e["deps"]) and os.path.exists(e["data"]):
            return e["data"]
    return None


def extract(tu, flags):
    hit = _lookup(tu, flags)
    if hit:
        return hit
    os.makedirs(CACHE, exist_ok=True)
    tmp = os.path.join(CACHE, "tmp.%d.%s" % (os.getpid(), hashlib.md5((tu + repr(flags)).encode()).hexdigest()[:8]))
    cmd = [TOOL, tmp, REPO + "/," + VERIF + "/", tu, "--"] + flags
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise AnalysisBroken("front end failed on %s:\n%s" % (tu, r.stderr[-3000:]))
    with open(tmp) as fh:
        head = json.loads(fh.readline())
    deps = sorted({os.path.normpath(d) for d in head["deps"]} | {tu})
    deps = [d for d in deps if os.path.exists(d)]
    key = hashlib.sha256("\n".join([tu, repr(flags), tool_hash()] + [d + file_hash(d) for d in deps]).encode()).hexdigest()[:24]
    data = os.path.join(CACHE, key + ".facts")
    os.replace(tmp, data)
    idx = _index_path(tu, flags)
    try:
        entries = json.load(open(idx))
    except (OSError, ValueError):
        entries = []
    entries = [e for e in entries if os.path.exists(e["data"])][-3:]
    entries.append({"deps": [[d, file_hash(d)] for d in deps], "data": data})
    t = idx + ".%d" % os.getpid()
    json.dump(entries, open(t, "w"))
    os.replace(t, idx)
    return data


class Fn:
    __slots__ = ("h", "_raw", "_body", "types", "tu", "_cfg")

    def __init__(self, h, raw, types, tu):
        self.h, self._raw, self.types, self.tu = h, raw, types, tu
        self._body = None
        self._cfg = None

    def __getattr__(self, k):
        if k in ("u", "q", "n", "f", "l"):
            return self.h[k]
        raise AttributeError(k)

    def get(self, k, d=None):
        return self.h.get(k, d)

    @property
    def params(self):
        return self.h["params"]

    def _load(self):
        if self._body is None:
            self._body = json.loads(self._raw)
            self._raw = None
        return self._body

    @property
    def body(self):
        return self._load().get("body")

    @property
    def inits(self):
        return self._load().get("inits", [])

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else ""

    @property
    def rt(self):
        return self.types[self.h["rt"]]

    @property
    def loc(self):
        f = self.h["f"]
        return "%s:%d" % (os.path.relpath(f, REPO) if f.startswith(REPO) else f, self.h["l"])

    def __repr__(self):
        return "<Fn %s %s>" % (self.q, self.loc)


class Rec:
    __slots__ = ("h", "types", "tu")

    def __init__(self, h, types, tu):
        self.h, self.types, self.tu = h, types, tu

    def ty(self, i):
        return self.types[i]

    def get(self, k, d=None):
        return self.h.get(k, d)


class Facts:
    def __init__(self):
        self.fns = {}        # USR -> Fn (non-dependent)
        self.dep_fns = {}    # USR -> Fn (template patterns)
        self.recs = {}       # canonical type -> Rec
        self.enums = {}
        self.vars = {}
        self.expinst = []
        self.tus = []
        self.by_q = {}
        self.by_n = {}
        self.overriders = {}

    def add_file(self, data, tu):
        with open(data) as fh:
            types = json.loads(fh.readline())["types"]
            for line in fh:
                head, tab, raw = line.rstrip("\n").partition("\t")
                h = json.loads(head)
                r = h["R"]
                if "f" in h:
                    h["f"] = os.path.normpath(h["f"])
                if r == "fn":
                    d = self.dep_fns if h.get("dep") else self.fns
                    if h["u"] not in d:
                        d[h["u"]] = Fn(h, raw, types, tu)
                elif r == "rec":
                    k = h["ct"] + ("|dep" if h.get("dep") else "")
                    if k not in self.recs:
                        self.recs[k] = Rec(h, types, tu)
                elif r == "enum":
                    self.enums.setdefault(h["q"], h)
                elif r == "var":
                    k = (h["q"], h["f"], h["l"])
                    if k not in self.vars:
                        h["_types"] = types
                        self.vars[k] = h
                elif r == "expinst":
                    self.expinst.append(h)
        self.tus.append(tu)

    def finish(self):
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)
            self.by_n.setdefault(f.n, []).append(f)
            for o in f.h.get("ov", ()):
                self.overriders.setdefault(o, []).append(f)
        self.recq = {}
        for k, r in self.recs.items():
            if not k.endswith("|dep"):
                self.recq.setdefault(r.h["q"], []).append(r)

    def q(self, name):
        """Functions whose qualified name is `name`."""
        return self.by_q.get(name, [])

    def one(self, name, pred=None):
        c = [f for f in self.q(name) if pred is None or pred(f)]
        if len(c) != 1:
            raise AnalysisBroken("anchor %s: %d definitions found" % (name, len(c)))
        return c[0]

    def subclasses(self, base_q):
        """canonical types of records transitively derived from base_q."""
        out, work = {}, [base_q]
        byb = {}
        for k, r in self.recs.items():
            if k.endswith("|dep"):
                continue
            for b in r.h["bases"]:
                bt = r.types[b].split("<")[0]
                byb.setdefault(bt, []).append(r)
        seen = set()
        while work:
            b = work.pop()
            for r in byb.get(b, ()):
                if r.h["ct"] not in seen:
                    seen.add(r.h["ct"])
                    out[r.h["ct"]] = r
                    work.append(r.h["q"])
        return out


def all_tus():
    d = os.path.join(REPO, "internal", "ceres")
    out = []
    skip = ("_test.cc", "_benchmark.cc", ".cu.cc", "test_util.cc")
    for n in sorted(os.listdir(d)):
        if not n.endswith(".cc") or n.endswith(skip):
            continue
        if n in ("gmock_gtest_all.cc", "gmock_main.cc", "evaluator_test_utils.cc", "numeric_diff_test_utils.cc", "evaluation_benchmark.cc", "fake_bundle_adjustment_jacobian.cc"):
            continue
        out.append(os.path.join(d, n))
    return out


def witness(name):
    return os.path.join(VERIF, "witness", name)


def load(tus, extra=()):
    build_tool()
    flags = FLAGS + list(extra)
    jobs = min(8, os.cpu_count() or 4)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        datas = list(ex.map(lambda t: extract(t, flags), tus))
    F = Facts()
    for t, d in zip(tus, datas):
        F.add_file(d, t)
    F.finish()
    return F


def load_all():
    return load(all_tus())


if __name__ == "__main__":
    import time
    t = time.time()
    F = load_all()
    print(len(F.tus), "units", len(F.fns), "functions", len(F.recs), "records", "%.1fs" % (time.time() - t))
