#!/usr/bin/env python3
"""Builds the engine and the two builds of /repo's sources for every harness (also done by each check when needed)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "harness"))
import check
from registry import CHECKS, SCHED
hs = {r["h"] for c in CHECKS.values() for r in c["runs"]}
try:
    check.build(sorted(hs - SCHED), False)
    if hs & SCHED:
        check.build(sorted(hs & SCHED), True)
except check.BuildError as e:
    print(e)
    sys.exit(1)
print("built", len(hs), "harnesses")
