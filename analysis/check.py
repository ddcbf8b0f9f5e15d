"""Obligation bookkeeping, verdict lines, evidence files, known findings."""
import json, os, sys, time, traceback
import facts
from facts import VERIF, REPO, AnalysisBroken

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, pid, rule, floor=1):
        self.pid, self.rule, self.floor = pid, rule, floor
        self.t0 = time.time()
        self.ok, self.bad, self.und = [], [], []
        self.cover = {}
        self.assume = []
        self.samples = []
        self.keys = set()

    # obligations ----------------------------------------------------------
    def passed(self, key, note=""):
        self._uniq(key)
        self.ok.append((key, note))

    def violation(self, key, where, msg):
        """key: stable identity (property-level, no line numbers)."""
        self._uniq(key)
        self.bad.append((key, where, msg))

    def undecided(self, key, why):
        self._uniq(key)
        self.und.append((key, why))

    def _uniq(self, key):
        self.keys.add(key)

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # verdict ----------------------------------------------------------------
    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("known: property="):
                    p, _, rest = line[len("known: property="):].partition(" ")
                    if p == self.pid and rest.startswith("key="):
                        k = rest[4:].split(" ")[0]
                        known[k] = rest
        new = []
        for key, where, msg in self.bad:
            k = key.replace(" ", "_")
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
            else:
                new.append((key, where, msg))
        total = len(self.ok) + len(self.bad) + len(self.und)
        status = 0
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        seen = set()
        for i, (key, where, msg) in enumerate(new):
            if (key, where) in seen:
                continue
            seen.add((key, where))
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.txt" % (self.pid, len(seen)))
            with open(path, "w") as fh:
                fh.write("property: %s\nrule: %s\nobligation: %s\nwhere: %s\n\n%s\n" % (self.pid, self.rule, key, where, msg))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  %s: %s: %s" % (where, key, msg.split("\n")[0]))
            status = 1
        for key, why in self.und[:20]:
            print("UNDECIDED property=%s %s: %s" % (self.pid, key, str(why).split("\n")[0][:300]))
        decided = len(self.ok) + len(self.bad)
        if status == 0 and decided < self.floor:
            print("ANALYSIS-BROKEN property=%s: only %d obligations decided, at least %d expected" % (self.pid, decided, self.floor))
            status = 3
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static rule: " + self.rule,
                "obligations_analysed": total, "obligations_hold": len(self.ok),
                "obligations_undecided": len(self.und), "violations_found": len(self.bad),
                "undecided": [list(u) for u in self.und][:40],
                "samples": self.samples or [list(o) for o in self.ok[:8]],
            },
            "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 3), "violations": len(new),
        }
        ev["coverage"].update({k: v for k, v in self.cover.items() if k not in ev["coverage"]})
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s: %d obligations, %d hold, %d violated, %d undecided, %.1fs" % (self.pid, total, len(self.ok), len(new), len(self.und), time.time() - self.t0))
        return status


def loc(fn):
    return fn.loc
