#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  run.py --prop C01 --tier quick|thorough [--seconds N] [--workers N]
  run.py --replay FILE        replay a failing run exactly (exit 1 when it fails as recorded)

Exit 0: the property held on every simulated run.  Exit 1 with
"VIOLATION property=<id> replay=<path>": a violation, reproduced twice with the
same event log, minimised, and replayed once more in a fresh process.
"""
import argparse, glob, json, os, shutil, signal, struct, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
QUICK_S, THOROUGH_S = 24, 300
# which library builds a property is searched on, with the share of workers
ALL = ["nt", "pt", "alt", "c11", "pt", "nt", "c11", "alt"]
THR = ["pt", "c11", "alt", "pt", "c11", "pt", "c11", "alt"]
VAR = {"C13": THR, "C14": THR, "C15": THR}
# the thorough tier gives one worker to a build with 64 bit file offsets
# real vs simulated parts, per property group, for the evidence file
REAL = "all EVFS core, shim and filesystem sources of /repo (sanitised), FatFs, glob, ranges, hash table"
STUB = "base filesystem (in-memory SimFs behind the Evfs interface), host file calls (passed through to a scratch directory with faults), littlefs library (stand-in with its interface), thread scheduler and lock primitives, allocator failures, clock"

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK): return d
    return HERE

def replay(path, quiet=False, extra=()):
    var = [l.split("=", 1)[1].strip() for l in open(path, errors="replace") if l.startswith("variant=")][0]
    bins = B.build(wide=var in B.W64)
    if not bins: return 2, "build failed"
    sc = os.path.join(scratch_root(), f"evfs-replay-{os.getpid()}")
    r = subprocess.run([bins[var], "--replay", path, "--scratch", sc, *extra], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(sc, ignore_errors=True)
    for f in glob.glob(sc + ".err"): os.unlink(f)
    return r.returncode, r.stdout

def known_entries(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: ") and f"property={prop} " in l:
                kv, what = l[len("known: "):].split(" -- ", 1)
                d = dict(x.split("=", 1) for x in kv.split())
                d["what"] = what.strip(); out.append(d)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float); ap.add_argument("--workers", type=int)
    ap.add_argument("--replay"); ap.add_argument("--verbose", action="store_true"); ap.add_argument("--seed", type=int)
    ap.add_argument("--first", type=int, default=0); ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.replay:
        rc, out = replay(a.replay, extra=["--verbose", "1"] if a.verbose else [])
        print(out, end=""); sys.exit(rc)
    prop, tier = a.prop, a.tier
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bins = B.build(wide=tier == "thorough")
    if not bins:
        print(f"ERROR property={prop}: /repo does not build"); sys.exit(2)
    tb = time.time() - t0
    secs = a.seconds or (QUICK_S if tier == "quick" else THOROUGH_S)
    n = a.workers or max(2, os.cpu_count() or 4)
    plan = list(VAR.get(prop, ALL))
    if tier == "thorough": plan[-1] = "w64"
    known = known_entries(prop)
    work = os.path.join(scratch_root(), f"evfs-{prop}-{os.getpid()}")
    os.makedirs(work); os.chmod(work, 0o777)
    procs = []; slowest = (0, 0, ""); budget_used = 0
    try:
        for w in range(n):
            v = plan[w % len(plan)]
            out = os.path.join(work, f"w{w}.out")
            cmd = [bins[v], "--prop", prop, "--seed", str(seed), "--first", str(a.first + w), "--stride", str(n), "--seconds", str(secs),
                   "--tier", tier, "--scratch", os.path.join(work, f"s{w}"), "--out", out]
            if known: cmd += ["--known", ",".join(k["class"] for k in known)]
            procs.append((v, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)))
        deadline = time.time() + secs + 60
        stop_at = None
        while any(p.poll() is None for _, _, p in procs):
            time.sleep(0.1)
            if stop_at is None and not a.keep_going:
                for _, o, p in procs:
                    if os.path.exists(o) and b"VIOL\t" in open(o, "rb").read(): stop_at = time.time() + 1.5
            if time.time() > deadline or (stop_at and time.time() > stop_at):
                for _, _, p in procs:
                    if p.poll() is None:
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except OSError: pass
                for _, _, p in procs: p.wait()
        stats, cnt, viols, samples, errors = {}, {}, [], [], []
        tags, nth = set(), set()
        slowest = (0, 0, ""); budget_used = 0
        for v, o, p in procs:
            if not os.path.exists(o): errors.append(f"worker produced nothing: {p.stderr.read()[:300]}"); continue
            txt = open(o, errors="replace").read()
            for l in txt.splitlines():
                f = l.split("\t")
                if l.startswith("STAT "): k, x = l[5:].split(); stats[k] = stats.get(k, 0) + int(x)
                elif f[0] == "CNT": c = cnt.setdefault(f[1], [0, 0]); c[0] += int(f[2]); c[1] += int(f[3])
                elif f[0] == "SLOWEST": slowest = max(slowest, (int(f[1]), int(f[2]), v)); budget_used = max(budget_used, int(f[3]))
                elif f[0] == "VIOL": viols.append((int(f[3]), v, f[1], f[2], "\t".join(f[4:])))
                elif f[0] == "SAMPLE": samples.append(v + " " + f[1])
                elif f[0] in ("HARNESS",) or l.startswith(("HARNESS", "UNSTABLE")): errors.append(f"{v}: {l}")
            for sfx, st in ((".tags", tags), (".nth", nth)):
                if os.path.exists(o + sfx):
                    d = open(o + sfx, "rb").read(); st.update(struct.unpack(f"<{len(d)//8}Q", d))
            if "\nEND" not in txt and "VIOL\t" not in txt and not stop_at: errors.append(f"{v}: worker ended early: rc={p.returncode}")
        # gate, minimise and report violations: one per class
        reported, gate_fail = [], []
        rdir = os.path.join(HERE, "build", "replays"); os.makedirs(rdir, exist_ok=True)
        seen = set()
        for idx, v, path, klass, msg in sorted(viols):
            if klass in seen or len(seen) >= 3: continue
            seen.add(klass)
            final = os.path.join(rdir, f"{prop}-{''.join(c if c.isalnum() else '_' for c in klass)}-{seed}-{idx}.replay")
            r = subprocess.run([bins[v], "--minimise", path, "--out", final, "--scratch", os.path.join(work, "min"), "--seconds", "15" if tier == "quick" else "60"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0: gate_fail.append(f"{klass} index {idx}: {r.stdout.strip()[:300]}"); continue
            rc, out = replay(final)
            want = [l.split("=", 1)[1].strip() for l in open(final, errors="replace") if l.startswith("hash=")][0]
            if rc != 1 or f"hash={want} " not in out: gate_fail.append(f"{klass} index {idx}: fresh process replay differs: {out[-300:]}"); continue
            m = [l for l in out.splitlines() if l.startswith("RESULT")][-1]
            reported.append({"class": klass, "seed": seed, "index": idx, "variant": v, "replay": final, "message": m.split(" msg=", 1)[1]})
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        shutil.rmtree(work, ignore_errors=True)
    kn = []
    for k in known:
        rp = os.path.join(HERE, k["replay"])
        if os.path.exists(rp):
            rc, out = replay(rp)
            if rc == 1 and f"class={k['class']} " in out: kn.append(k)
    for k in kn: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.time() - t0
    rules = subprocess.run([bins["nt"], "--list"], stdout=subprocess.PIPE, text=True).stdout
    rule = next((l.split("\t", 1)[1] for l in rules.splitlines() if l.startswith(prop + "\t")), "")
    runs = stats.get("runs", 0)
    if not samples: samples = [f"seed={seed} (no run reached the non-trivial situation before the first violation)"]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(nth), "rule": rule, "samples": samples[:6],
              "runs_per_hour": int(runs / (stats.get("wall_ms", 1) / 1000 / n + 1e-9) * 3600), "seeds": "one run = one seed (VERIF_SEED, run index, build)",
              "simulated_time_s": stats.get("simtime_us", 0) / 1e6, "events": stats.get("events", 0), "instrumented_edges": stats.get("steps", 0),
              "distinct_interleavings_or_states": len(tags), "distinct_measure": "distinct hashes of the per-run sequence of base operations, faults, preemptions and model states",
              "context_switches": stats.get("switches", 0), "lock_operations": stats.get("lockops", 0),
              "faults_injected": {k[6:]: {"times": c[0], "runs": c[1]} for k, c in sorted(cnt.items()) if k.startswith("fault:")},
              "probes": {k[6:]: {"times": c[0], "runs": c[1]} for k, c in sorted(cnt.items()) if k.startswith("probe:")},
              "determinism": {"rerun_same_seed": stats.get("determinism_checked", 0), "differing": stats.get("determinism_failed", 0)},
              "builds": sorted(set(plan[w % len(plan)] for w in range(n))), "workers": n,
              "real_components": REAL, "simulated_components": STUB, "known_finding_runs": stats.get("known", 0), "build_s": round(tb, 1), "slowest_run_ms": slowest[0], "step_budget_used_percent": budget_used},
          "wall_s": round(wall, 1), "violations": len(reported)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: {runs} runs, {len(nth)} distinct non-trivial, {sum(c[0] for k, c in cnt.items() if k.startswith('fault:'))} faults, {wall:.0f} s (slowest run {slowest[0]} ms, index {slowest[1]} {slowest[2]}, {budget_used}% of the step budget)")
    for r in reported:
        print(f"  {r['class']}: {r['message']}")
        print(f"VIOLATION property={prop} replay={r['replay']}")
    if reported: sys.exit(1)
    if gate_fail or errors:
        for e in gate_fail + errors: print("ERROR", e)
        sys.exit(2)
    if runs == 0: print("ERROR no runs completed"); sys.exit(2)
    sys.exit(0)

if __name__ == "__main__": main()
