#!/usr/bin/env python3
"""Extracts the facts the checks will need into the content-addressed cache."""
import os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
try:
    facts.load_all()
except facts.AnalysisBroken as e:
    print("warning:", e)
for w in sorted(glob.glob(os.path.join(facts.VERIF, "witness", "*.cc"))):
    try:
        facts.load([w])
    except facts.AnalysisBroken as e:
        print("warning:", e)
print("facts ready")
