#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree into /verif/build (git-ignored)."""
import hashlib, os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EVFS_REPO", "/repo")
B = os.path.join(HERE, "build")
# "alt" is the other side of the configuration options: threads, but no shared path buffers, no Romfs index, no colours
VARIANTS = {"nt": "", "pt": "#define USE_PTHREADS\n", "c11": "#define USE_C11_THREADS\n", "alt": "#define USE_PTHREADS\n"}
OFF = {"alt": "EVFS_USE_LITTLEFS_SHARED_BUFFER EVFS_USE_ROTATE_SHARED_BUFFER EVFS_USE_TARFS_SHARED_BUFFER EVFS_USE_ROMFS_SHARED_BUFFER EVFS_USE_ROMFS_FAST_INDEX EVFS_USE_ANSI_COLOR".split()}
# "w64" has 64 bit file offsets; it needs its own harness objects and is only built for the thorough tier
W64 = {"w64": "#define USE_PTHREADS\n"}
OVERLAYS = dict(VARIANTS, **W64)
LIB = """evfs.c evfs_c11_thread.c evfs_pthread.c evfs_path.c shim_trace.c shim_jail.c shim_rotate.c util/glob.c
util/range_strings.c util/dhash.c util/search.c util/bsd_string.c stdio_fs.c tar_iter.c tar_fs.c tar_iter_rsrc.c
util/intmath.c tar_rsrc_fs.c romfs_common.c romfs_fs.c fatfs_fs.c fatfs_image.c""".split()
FF = ["ff.c", "ffunicode.c"]
WRAPS = """malloc calloc realloc free strdup strndup pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_once mtx_init mtx_destroy mtx_lock mtx_trylock mtx_unlock call_once
atexit time""".split()
# libc entry points the host-filesystem backend may use; all pass through to the
# real libc inside the run's scratch directory, with faults (hostio.cc)
HOSTWRAPS = """fopen fopen64 freopen fdopen fclose fread fwrite fflush fseek fseeko fseeko64 ftell ftello ftello64 rewind feof ferror
ftruncate ftruncate64 truncate fstat fstat64 stat stat64 lstat fstatat mkdir remove unlink rmdir rename opendir readdir readdir64 closedir rewinddir
getcwd chdir open open64 read write close lseek lseek64 fsync fdatasync""".split()
SAN = "-fsanitize=address,bounds,integer-divide-by-zero -fno-sanitize-recover=all"
CF = f"-O1 -g1 -std=gnu11 -funsigned-char -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern {SAN} -w".split()
HF = "-O2 -g1 -std=gnu++17 -w -Wno-c99-designator".split()

def sha(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def compile_cached(cc, flags, src, key, deps_hash):
    """object cache keyed by the preprocessing-relevant content"""
    obj = os.path.join(B, "obj", f"{key}-{deps_hash}.o")
    if os.path.exists(obj): return obj, None
    tmp = obj + f".{os.getpid()}.tmp"
    rc, out = run([cc] + flags + ["-c", src, "-o", tmp])
    if rc != 0: return None, f"{src}:\n{out}"
    os.replace(tmp, obj)
    return obj, None

def build(verbose=False, wide=False):
    VARIANTS = dict(globals()['VARIANTS'], **(W64 if wide else {}))
    os.makedirs(os.path.join(B, "obj"), exist_ok=True)
    inc_files = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "include")) for f in fs if f != "evfs_build_config.h"]
    ffh = glob.glob(os.path.join(REPO, "libraries/fatfs/source/*.h"))
    inc_hash = sha(inc_files + ffh + glob.glob(os.path.join(REPO, "src/*.h")))
    sim = sorted(glob.glob(os.path.join(HERE, "sim/*.cc")))
    simh = sorted(glob.glob(os.path.join(HERE, "sim/*.h"))) + sorted(glob.glob(os.path.join(HERE, "sim/lfs_stub/*.h")))
    stubs = sorted(glob.glob(os.path.join(HERE, "sim/lfs_stub/*.c")))
    # headers overlay so that the generated build config of /repo is never used
    for v, d in OVERLAYS.items():
        dst = os.path.join(B, f"inc-{v}{len(OFF.get(v, ()))}-{inc_hash}")
        if not os.path.isdir(dst):
            tmp = dst + f".{os.getpid()}"
            shutil.copytree(os.path.join(REPO, "include"), tmp)
            cfg = os.path.join(tmp, "evfs/evfs_build_config.h")
            if os.path.exists(cfg): os.unlink(cfg)
            with open(cfg, "w") as f:
                f.write('#define EVFS_VERSION "1.0.0"\n' + d)
            if v in W64:
                cf = os.path.join(tmp, "evfs/evfs_config.h")
                if not os.path.exists(cf): cf = os.path.join(tmp, "evfs_config.h")
                t = re.sub(r"(?m)^.*define\s+EVFS_FILE_OFFSET_BITS\b.*$", "", open(cf).read())
                open(cf, "w").write("#define EVFS_FILE_OFFSET_BITS 64\n" + t)
            if v in OFF:
                cf = os.path.join(tmp, "evfs/evfs_config.h")
                if not os.path.exists(cf): cf = os.path.join(tmp, "evfs_config.h")
                t = open(cf).read()
                for o in OFF[v]: t = re.sub(rf"(?m)^\s*#\s*define\s+{o}\b.*$", "", t)
                open(cf, "w").write(t)
            try: os.rename(tmp, dst)
            except OSError: shutil.rmtree(tmp, ignore_errors=True)
    jobs = []
    def inc(v):
        d = os.path.join(B, f"inc-{v}{len(OFF.get(v, ()))}-{inc_hash}")
        return ["-I" + d, "-I" + d + "/evfs", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "libraries/fatfs/source"), "-I" + os.path.join(HERE, "sim/lfs_stub")]
    per = {v: [] for v in VARIANTS}
    lib_inc = sorted(glob.glob(os.path.join(REPO, "src/*.h")) + glob.glob(os.path.join(REPO, "src/util/*.h")))
    lib = [(os.path.join(REPO, "src", f), f) for f in LIB]
    if os.path.exists(os.path.join(HERE, "sim/lfs_stub/lfs.h")):
        lib += [(os.path.join(REPO, "src", f), f) for f in ("littlefs_fs.c", "littlefs_image.c")]
    for v in VARIANTS:
        for src, f in lib:
            fl = CF + ["-fsanitize-coverage=trace-pc-guard"] + inc(v)
            extra = sha(simh, "") if f.startswith("littlefs") else ""
            jobs.append((v, "clang", fl, src, f"{v}-{f.replace('/', '_')}", sha([src] + lib_inc, inc_hash + extra + " ".join(CF + OFF.get(v, [])))))
    groups = [("*", "nt", "")] + [(w, w, w + "-") for w in W64 if wide]
    for g, i, pre in groups:
        for f in FF:
            src = os.path.join(REPO, "libraries/fatfs/source", f)
            jobs.append((g, "clang", CF + inc(i), src, f"{pre}ff-{f}", sha([src], inc_hash + " ".join(CF))))
        for s in stubs:
            jobs.append((g, "clang", CF + inc(i), s, pre + "stub-" + os.path.basename(s), sha([s] + simh, inc_hash + " ".join(CF))))
        for s in sim:
            jobs.append((g, "clang++", HF + inc(i), s, pre + "h-" + os.path.basename(s), sha([s] + simh, inc_hash + " ".join(HF))))
    errs = []
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda j: (j[0], compile_cached(j[1], j[2], j[3], j[4], j[5])), jobs))
    for v, (o, e) in res:
        if e: errs.append(e); continue
        for x in ([y for y in VARIANTS if y not in W64] if v == "*" else [v]): per[x].append(o)
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs)); return None
    bins = {}
    hostio = os.path.exists(os.path.join(HERE, "sim/hostio.cc"))
    def link(v):
        out = os.path.join(B, f"sim_{v}-{sha([], ' '.join(per[v]) + inc_hash + SAN + ' '.join(WRAPS + HOSTWRAPS * hostio))}")
        if not os.path.exists(out):
            vc = os.path.join(B, f"variant_{v}.cc")
            open(vc, "w").write(f'extern const char *sim_variant; const char *sim_variant = "{v}";\n')
            tmp = out + f".{os.getpid()}.tmp"
            w = WRAPS + (HOSTWRAPS if hostio else [])
            rc, o = run(["clang++"] + SAN.split() + ["-no-pie"] + ["-Wl,--wrap=" + x for x in w] + per[v] + [vc, "-o", tmp, "-lpthread"])
            if rc != 0: return v, None, o
            os.replace(tmp, out)
        return v, out, None
    with ThreadPoolExecutor(4) as ex:
        for v, o, e in ex.map(link, VARIANTS):
            if e: print("LINK FAILED", v, e); return None
            bins[v] = o
    # keep the cache bounded: drop objects and binaries not used by this build and old
    keep = set(os.path.basename(o) for l in per.values() for o in l)
    import time
    now = time.time()
    for f in glob.glob(os.path.join(B, "obj", "*.o")):
        if os.path.basename(f) not in keep and now - os.path.getmtime(f) > 3600: os.unlink(f)
    for f in glob.glob(os.path.join(B, "sim_*")):
        if f not in bins.values() and now - os.path.getmtime(f) > 3600: os.unlink(f)
    return bins

if __name__ == "__main__":
    b = build(True)
    if not b: sys.exit(1)
    for v, p in b.items(): print(v, p)
