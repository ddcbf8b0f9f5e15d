#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS BREAKS [--srcs 'a.cc b.cc'] [--flags ..] [--run 'cmd'] : edits on stdin (file|||old|||new, \\n escapes).
Creates /verif/seeded/ID (demo.cc must be there already) and confirms it in the scratch copy /tmp/seed/repo."""
import argparse, json, os, shutil, subprocess, sys
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("prop"); ap.add_argument("needs"); ap.add_argument("breaks")
ap.add_argument("--srcs", default=""); ap.add_argument("--flags", default="-O1")
a = ap.parse_args()
S, B = "/tmp/seed/repo", "/tmp/seed/build"
D = "/verif/seeded/" + a.id
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD" % S)
shutil.copytree("/verif/stubs/absl", D + "/stubs/absl", dirs_exist_ok=True)
shutil.copytree("/verif/stubs/ceres", D + "/stubs/ceres", dirs_exist_ok=True)
open(D + "/demo.sh", "w").write('''#!/bin/bash
# Exit 0 when the property holds for the demonstrated case, nonzero otherwise.  Run in the root of the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
pids=()
objs=()
for s in "$D/demo.cc" %s; do
  o="$T/$(basename "$s").o"
  objs+=("$o")
  g++ -std=c++17 %s -w -I"$D/stubs" -Iinclude -Iinternal -I/usr/include/eigen3 -c "$s" -o "$o" &
  pids+=($!)
  if [ ${#pids[@]} -ge 8 ]; then wait "${pids[0]}" || exit 3; pids=("${pids[@]:1}"); fi
done
for p in "${pids[@]}"; do wait "$p" || exit 3; done
g++ %s "${objs[@]}" -o "$T/demo" -lpthread || exit 3
timeout 120 "$T/demo"
''' % (a.srcs, a.flags, "-fsanitize=address" if "sanitize" in a.flags else ""))
json.dump({"property": a.prop, "needs": a.needs, "what_it_breaks": a.breaks}, open(D + "/meta.json", "w"), indent=1)
for l in sys.stdin:
    if not l.strip():
        continue
    f, old, new = l.rstrip("\n").replace("\\n", "\n").split("|||")
    p = os.path.join(S, f); s = open(p).read()
    assert s.count(old) >= 1, "not found: " + old
    if s.count(old) > 1: print("warning: %d occurrences, first replaced" % s.count(old))
    open(p, "w").write(s.replace(old, new, 1))
d = sh("cd %s && git diff" % S).stdout
open(D + "/patch.diff", "w").write(d)
r = sh("bash %s/demo.sh" % D, cwd="/repo"); print("unchanged:", r.returncode, r.stdout[-300:], r.stderr[-600:])
r2 = sh("bash %s/demo.sh" % D, cwd=S); print("patched:", r2.returncode, r2.stdout[-300:], r2.stderr[-300:])
b = sh("ninja -C %s -k 0" % B); print("build:", b.returncode, b.stdout[-300:] if b.returncode else "")
t = sh("python3 /opt/vp/run_tests.py %s/bin /tmp/seed/lines.txt integer_sequence_algorithm_test invert_psd_matrix_test is_close_test jet_traits_test parallel_utils_test parameter_dims_test tiny_solver_test tiny_solver_autodiff_function_test" % B)
L = open("/tmp/seed/lines.txt").read()
print("tests:", L.lower().count("pass"), "pass", [x for x in L.splitlines() if "pass" not in x.lower()])
env = dict(os.environ, VERIF_REPO=S)
c = sh("python3-vt /verif/analysis/run.py %s" % a.prop, env=env); print("check:", c.returncode, "\n".join(c.stdout.splitlines()[:3]))
sh("cd %s && git checkout -q -f ." % S)
ok = r.returncode == 0 and r2.returncode != 0 and b.returncode == 0
print("SEED", a.id, "OK" if ok else "BAD", "caught" if c.returncode == 1 else "MISSED")
