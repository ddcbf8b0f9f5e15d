#!/usr/bin/env python3
"""run.py <property id>: decides one property from /repo's current sources."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main(pid, out):
    import facts
    try:
        mod = importlib.import_module("props." + pid.lower())
        chk = mod.run()
        out.append(chk.finish())
    except facts.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        out.append(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        out.append(3)


if __name__ == "__main__":
    out = []
    t = threading.Thread(target=main, args=(sys.argv[1], out))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
