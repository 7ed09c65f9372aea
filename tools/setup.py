#!/usr/bin/env python3
"""Builds the drivers once; every check builds again what has changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plan
w = sorted({(j["flavour"], j["driver"]) for p in plan.PLAN.values() for j in p["jobs"]})
try:
    for v in build.build(w).values():
        print(v)
except build.BuildError as e:
    print(e)
    sys.exit(2)
