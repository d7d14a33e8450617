#!/usr/bin/env python3
"""Create and confirm one planted bug.
  plant.py new ID SPEC.py     SPEC defines prop, needs, breaks, edits=[(file, old, new)], demo (C text), threads, cflags
  plant.py check ID...        demo clean/patched, stable tests with the patch, which checks catch it
Works on /repo and undoes the change straight afterwards."""
import sys, os, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def new(i, spec):
    s = {}; exec(open(spec).read(), s)
    d = f"{H}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="pl", dir="/tmp")
    sh(f"git clone -q {R} {t}/r")
    for f, a, b in s["edits"]:
        p = f"{t}/r/{f}"; x = open(p).read()
        if x.count(a) != 1: print("EDIT matches", x.count(a), f, repr(a[:60])); sys.exit(1)
        # must be lines of the base commit
        open(p, "w").write(x.replace(a, b))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {t}/r diff").stdout)
    # removed lines must be original ones
    for f in set(e[0] for e in s["edits"]):
        base = sh(f"git -C {R} show 70a6d6f:{f}").stdout.splitlines()
        for l in sh(f"git -C {t}/r diff -U0 {f}").stdout.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base: print("NOT ORIGINAL:", l)
    shutil.rmtree(t)
    for f in os.listdir(f"{H}/tools/demo"):
        if f == "demo.sh.in":
            x = open(f"{H}/tools/demo/{f}").read()
            th = {"": "", "pt": "#define USE_PTHREADS", "c11": "#define USE_C11_THREADS"}[s.get("threads", "")]
            x = x.replace("@THREADS@", th).replace("@CFLAGS@", s.get("cflags", "")).replace("@LDFLAGS@", s.get("ldflags", ""))
            open(f"{d}/demo.sh", "w").write(x); os.chmod(f"{d}/demo.sh", 0o755)
        elif f.replace(".h", "") in s["demo"]: shutil.copy(f"{H}/tools/demo/{f}", d)
    open(f"{d}/demo.c", "w").write(s["demo"].lstrip())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
def check(i, props=None, tests=True):
    d = f"{H}/seeded/{i}"; m = json.load(open(f"{d}/meta.json"))
    if sh(f"git -C {R} status --porcelain").stdout.strip(): print("repo dirty"); sys.exit(1)
    sh("bash /opt/vp/build.sh"); o = []
    def demo():
        r = sh(f"bash {d}/demo.sh", cwd=R, timeout=300); return r.returncode, r.stdout[-200:].strip()
    c, out = demo(); o.append(f"clean demo {c}" + ("" if c == 0 else " BAD " + out))
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); return
    try:
        if tests:
            sh("bash /opt/vp/test.sh /tmp/plant.json"); r = json.load(open("/tmp/plant.json"))
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); miss = st - set(r["passed"])
            o.append("tests pass" if not miss else f"TESTS FAIL {sorted(miss)[:3]}")
        c, out = demo(); o.append(f"patched demo {c}" + (" BAD" if c == 0 else "") + " " + out.replace("\n", " | "))
        for p in props or [m["property"]]:
            r = sh(f"python3 {H}/run.py --prop {p} --tier quick", env=dict(os.environ, VERIF_SEED="1"))
            l = [x for x in r.stdout.splitlines() if x.startswith("  ") or "ERROR" in x or "BUILD" in x]
            o.append(f"{p}: " + ("CAUGHT" if r.returncode == 1 else f"not caught rc={r.returncode}") + " " + " ".join(l)[:220])
    finally:
        sh(f"git -C {R} checkout -- ."); sh("bash /opt/vp/build.sh")
    print(i, *["\n   " + x for x in o], sep="", flush=True)
if sys.argv[1] == "new": new(sys.argv[2], sys.argv[3]); check(sys.argv[2])
else:
    a = sys.argv[2:]; ids = [x for x in a if not x.startswith("-")]; props = None
    for x in a:
        if x.startswith("--props="): props = x[8:].split(",")
    if ids == ["all"]: ids = sorted(os.listdir(f"{H}/seeded"))
    for i in ids: check(i, props, "--notests" not in a)
