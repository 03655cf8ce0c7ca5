#!/usr/bin/env python3
"""setup_cmd: the tools are there and every specification module parses."""
import os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
os.makedirs(BUILD, exist_ok=True)
for t in ("java", "cargo"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
def parse(v, m):
    p = subprocess.run(["java", f"-DTLA-Library={SPEC}:{SPEC}/{v}", "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
                        "tla2sany.SANY", os.path.join(SPEC, m)], capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout:
        sys.exit(f"{m} ({v}) does not parse:\n{p.stdout[-2000:]}{p.stderr[-500:]}")
mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))
with ThreadPoolExecutor(8) as ex:
    list(ex.map(lambda x: parse(*x), [(v, m) for v in (VERSIONS[0], VERSIONS[3], VERSIONS[5]) for m in mods]))
print("setup ok:", ", ".join(mods))
