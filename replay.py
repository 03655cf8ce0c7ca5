#!/usr/bin/env python3
"""replay.py FILE [N]: runs the N-th recorded disagreement (default 0) against the current tree."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
f = sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
v = json.load(open(f))[n]
print(v["version"], v["subject"], "\n  recorded:", v["difference"])
if "command" in v:
    c = v["command"]
    exe = build([c["ver"]])
    print("  command:", json.dumps(c))
    print("  now:", json.dumps(drive(exe, [c])[0]))
    print("  expected:", json.dumps(v.get("expected")))
