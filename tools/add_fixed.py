#!/usr/bin/env python3
"""add_fixed.py PROP N: lists the last N commits of /repo as repaired defects of PROP in known_findings.txt."""
import subprocess, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); K = os.path.join(H, "known_findings.txt")
prop, n = sys.argv[1], int(sys.argv[2]); txt = open(K).read()
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", f"-{n}"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if h in txt or not s.startswith("fix: "): continue
    txt += f"fixed: property={prop} {h} {s[5:]}\n"
open(K, "w").write(txt)
