#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 spec/gen.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claimed import CLAIMED
from notapplicable import NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prop(p):
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    if p.get("observe"):
        d["anchors"]["observe_at"] = p["observe"]
    return d


def main():
    claimed = sorted(CLAIMED, key=lambda p: p["id"])
    na = sorted(NA, key=lambda p: p["id"])
    ids = [p["id"] for p in claimed + na]
    assert len(ids) == len(set(ids)), ids
    for p in claimed + na:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in claimed + na:
            fh.write(json.dumps(prop(p)) + "\n")
    m = {"version": 1, "setup_cmd": "bash tools/build.sh && python3-vt analysis/setup.py", "checks": [], "not_applicable": []}
    for p in claimed:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3-vt analysis/run.py " + p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough python3-vt analysis/run.py " + p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
    for p in na:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(claimed), "claimed,", len(na), "not applicable")


main()
