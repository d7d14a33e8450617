#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the scenarios present in sim/*.cc."""
import glob, json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(os.path.join(H, "sim/*.cc")): have |= set(re.findall(r'SCENARIO\("(C\d+)"', open(f).read()))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
 "C28": "a pure function of its input (glob matching, range formatting): no nondeterminism or fault to simulate; its use under allocation failure is decided in C17 and in listings by C25",
}
NOTE = "seeded search over schedules, fault sequences and histories; samples the space, so a clean batch is evidence and not proof. Every failure is replayable from its seed and minimised choice list."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"python3 run.py --prop {i} --tier quick", "thorough_cmd": f"python3 run.py --prop {i} --tier thorough",
                       "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (base filesystem interface, allocator, lock primitives, host I/O) is taken by interposition at link time, and compiler instrumentation supplies preemption points."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
