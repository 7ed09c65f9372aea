#!/usr/bin/env python3
"""replay.py FILE: runs the case of a violation again, with its history."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import check as C
r = json.load(open(sys.argv[1]))
exe = B.build([(r["flavour"], r["driver"])])[(r["flavour"], r["driver"])]
a, args, skip = r["args"], [], False
for x in a:
    if skip:
        skip = False
        continue
    if x in ("--from", "--cases"):
        skip = True
        continue
    args.append(x)
cmd = r["wrap"] + [exe] + args + ["--case", r["case"], "--verbose"]
print(" ".join(cmd), flush=True)
sys.exit(subprocess.call(cmd, env=dict(os.environ, **C.ENV)))
