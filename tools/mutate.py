#!/usr/bin/env python3
"""Development aid: systematic mutants of the library, each run through the simulators of the properties that
should see it.  mutate.py FILE[:from-to] [--secs N] [--jobs N] [--props C01,C02] [--sample N] [--seed N]
Prints the mutants nothing detected; they are then run against the repository's own tests."""
import sys, os, re, random, subprocess, shutil, importlib.util, threading, queue, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/mw"
PROPS = {
 "shim_rotate.c": "C04,C01,C05,C03,C18,C17,C02,C14,C13,C25", "shim_jail.c": "C07,C29,C06,C18,C17,C14,C13", "shim_trace.c": "C08,C29,C18,C17",
 "tar_fs.c": "C09,C29,C12,C10,C18,C17,C13,C14,C30", "tar_iter.c": "C09,C18,C17", "tar_rsrc_fs.c": "C10,C29,C12,C18,C17,C13,C14,C30", "tar_iter_rsrc.c": "C10,C17",
 "romfs_fs.c": "C11,C29,C12,C18,C17,C13,C14,C25,C30", "romfs_common.c": "C11,C12,C18,C17,C25", "fatfs_fs.c": "C19,C29,C21,C20,C18,C17,C12,C25,C14,C30", "fatfs_image.c": "C19,C20,C21,C18,C17,C30",
 "littlefs_fs.c": "C24,C18,C17,C12,C14,C13,C25,C30", "littlefs_image.c": "C24,C18,C17", "stdio_fs.c": "C22,C29,C18,C17,C12,C13,C14,C25,C30", "evfs.c": "C29,C15,C16,C23,C25,C26,C14,C17,C18,C13,C07,C19",
 "evfs_path.c": "C27,C07,C29,C23,C06,C11,C05,C24", "evfs_pthread.c": "C14,C13,C15", "evfs_c11_thread.c": "C14,C13,C15", "glob.c": "C25", "range_strings.c": "C27,C26,C23,C07,C06,C05", "dhash.c": "C31,C09,C11,C17", "search.c": "C11,C09" }
def arg(n, d): 
    a = sys.argv
    return a[a.index(n) + 1] if n in a else d
def mutants(lines, lo, hi):
    out = []; depth = 0; com = False
    for n, l in enumerate(lines):
        s = l.split("//")[0]
        if com: 
            if "*/" in s: com = False
            continue
        if s.lstrip().startswith("/*"):
            if "*/" not in s: com = True
            continue
        d0 = depth; depth += s.count("{") - s.count("}")
        if not (lo <= n + 1 <= hi) or d0 < 1 or s.lstrip().startswith("#") or s.lstrip().startswith("case ") or "ASSERT" in s: continue
        st = s.strip(); ind = s[:len(s) - len(s.lstrip())]
        def add(new, op): out.append((n, new, op))
        # statement deletion
        if re.match(r"^[A-Za-z_(*][^;]*;\s*$", st) and not re.match(r"^(return|goto|break|continue|else|typedef|static|const|struct|unsigned|int |char |bool |size_t |evfs_off_t |ptrdiff_t |[A-Z]\w+ \*?\w+( =|;|\[)|[A-Z]\w+ \w+ )", st) and not re.match(r"^\w+ \*?\w+( =.*)?;", st):
            add(ind + ";", "delete")
        m = re.match(r"^return\s+(\w+);", st)
        if m and m.group(1) not in ("EVFS_OK", "NULL", "false", "true", "0"): add(ind + "return EVFS_OK;" if "EVFS" in m.group(1) or m.group(1) == "status" else ind + "return 0;", "return-ok")
        m = re.match(r"^(\s*(?:\} *)?(?:else )?(?:if|while)\s*\()(.*)(\)[^()]*)$", s)
        if m and m.group(2).count("(") == m.group(2).count(")"): add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate"); 
        if m and "if" in m.group(1) and m.group(2).count("(") == m.group(2).count(")"): add(m.group(1) + "0" + m.group(3), "never")
        for mm in re.finditer(r" (<|>|<=|>=|==|!=) ", s):
            o = mm.group(1); new = {"<": "<=", ">": ">=", "<=": "<", ">=": ">", "==": "!=", "!=": "=="}[o]
            if o in ("==", "!=") and m: continue
            add(s[:mm.start()] + f" {new} " + s[mm.end():], f"{o} to {new}")
        for mm in re.finditer(r" (\+|-) |(?<=\w)(\+|-)(?=1\b)", s):
            o = mm.group(1) or mm.group(2); add(s[:mm.start()] + (" - " if o == "+" else " + ") + s[mm.end():], f"{o} swapped")
            q = re.match(r"\s*1\b", s[mm.end():])
            if q: add(s[:mm.start()] + s[mm.end() + q.end():], "one dropped")
        for mm in re.finditer(r"&&|\|\|", s): add(s[:mm.start()] + ("||" if mm.group() == "&&" else "&&") + s[mm.end():], mm.group() + " swapped")
        for mm in re.finditer(r"(\+=|-=)", s): add(s[:mm.start()] + ("-=" if mm.group() == "+=" else "+=") + s[mm.end():], "assign op")
        for mm in re.finditer(r"\b(true|false)\b", s): add(s[:mm.start()] + ("false" if mm.group() == "true" else "true") + s[mm.end():], "bool")
    return out
def load(i, repo):
    os.environ["EVFS_REPO"] = repo
    sp = importlib.util.spec_from_file_location(f"b{i}", f"{H}/build.py"); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    m.REPO = repo; m.B = f"{W}/b{i}"; m.VARIANTS = {"pt": m.VARIANTS["pt"]}; return m
def main():
    spec = sys.argv[1]; f, _, r = spec.partition(":"); lo, hi = (int(x) for x in r.split("-")) if r else (1, 10**9)
    path = next(p for p in (f"src/{f}", f"src/util/{f}") if os.path.exists(f"/repo/{p}")); lines = open(f"/repo/{path}").read().split("\n")
    ms = mutants(lines, lo, hi); random.seed(int(arg("--seed", "1"))); n = int(arg("--sample", "0"))
    if n and n < len(ms): ms = sorted(random.sample(ms, n))
    props = arg("--props", PROPS[f]).split(","); secs = arg("--secs", "4"); jobs = int(arg("--jobs", "8")); sys.path.insert(0, H)
    q = queue.Queue(); [q.put(m) for m in ms]; surv = []; stat = {}; mu = threading.Lock()
    def known(p): return ",".join(re.findall(rf"known: property={p} class=(\S+)", open(f"{H}/known_findings.txt").read()))
    K = {p: known(p) for p in props}
    def worker(i):
        repo = f"{W}/r{i}"; shutil.rmtree(repo, ignore_errors=True); os.makedirs(repo)
        for d in ("src", "include", "libraries"): shutil.copytree(f"/repo/{d}", f"{repo}/{d}", symlinks=True)
        with mu: b = load(i, repo)
        os.makedirs(b.B, exist_ok=True)
        while True:
            try: n_, new, op = q.get_nowait()
            except queue.Empty: return
            x = list(lines); x[n_] = new; open(f"{repo}/{path}", "w").write("\n".join(x))
            try: bins = b.build()
            except Exception as e: bins = None
            if not bins: 
                with mu: stat["no build"] = stat.get("no build", 0) + 1
                continue
            found = None
            for p in props:
                out = f"/dev/shm/mw{i}.out"; sc = f"/dev/shm/mws{i}"; shutil.rmtree(sc, ignore_errors=True)
                cmd = [bins["pt"], "--prop", p, "--seed", "1", "--first", "0", "--stride", "1", "--seconds", secs, "--scratch", sc, "--out", out] + (["--known", K[p]] if K[p] else [])
                if os.path.exists(out): os.unlink(out)
                try: subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=int(secs) * 3 + 30)
                except subprocess.TimeoutExpired: found = p + " timeout"; break
                t = open(out, errors="replace").read() if os.path.exists(out) else ""
                v = [l for l in t.splitlines() if l.startswith("VIOL")]
                if v: found = p + " " + v[0][:100]; break
                if "STAT runs" not in t: found = p + " no end"; break
            os.unlink(bins["pt"])
            with mu:
                k = found.split()[0] if found else "SURVIVED"; stat[k] = stat.get(k, 0) + 1
                if not found: surv.append((n_, new, op)); print(f"{f}:{n_+1} [{op}] {lines[n_].strip()}  ->  {new.strip()}", flush=True)
                elif "-v" in sys.argv: print(f"  caught {f}:{n_+1} [{op}] {found}", flush=True)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(jobs)]; [t.start() for t in ts]; [t.join() for t in ts]
    print(f, len(ms), "mutants", stat)
main()
