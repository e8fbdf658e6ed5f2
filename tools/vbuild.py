#!/usr/bin/env python3
"""Content-addressed build of /repo's sources and the harnesses, in several configurations.

Objects are cached under /verif/build/cache keyed by the flags and by the content of the source and
of every file it includes (taken from the compiler's dependency output), so a check recompiles exactly
what changed in the working tree whatever the timestamps say.
"""
import hashlib, json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CACHE = os.path.join(BUILD, "cache")
JOBS = os.cpu_count() or 8

COMMON = ["-std=c++17", "-g1", "-UNDEBUG", "-I", os.path.join(REPO, "include"), "-pthread", "-w"]
ASAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
DBL = ["-DIS_RP3D_DOUBLE_PRECISION_ENABLED"]
HOOK = ["-DRP3D_VERIF_HOOKS"]
# name: (compiler, flags, link flags)
CONFIGS = {
    "f":  ("g++", ["-O2"], []),
    "d":  ("g++", ["-O2"] + DBL, []),
    "fh": ("g++", ["-O2"] + HOOK, []),                 # allocators hooked, no sanitizer
    "fa": ("clang++", ["-O1"] + ASAN + HOOK, ASAN),
    "da": ("clang++", ["-O1"] + ASAN + HOOK + DBL, ASAN),
    "fu": ("clang++", ["-O1"] + ASAN, ASAN),          # sanitized, allocators un-hooked
    "du": ("clang++", ["-O1"] + ASAN + DBL, ASAN),
    "ft": ("clang++", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "fc": ("clang++", ["-O2", "-DNDEBUG"], []),        # what a release build of the library does
}

class BuildError(Exception):
    pass

_hash_memo = {}
def fhash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h

def lib_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    return sorted(out)

def sysver(cc, memo={}):
    if cc not in memo:
        memo[cc] = subprocess.run([cc, "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    return memo[cc]

def compile_one(cfg, src, extra=()):
    cc, flags, _ = CONFIGS[cfg]
    cmd = [cc] + COMMON + flags + list(extra)
    key = hashlib.sha256(json.dumps([sysver(cc), cmd, src]).encode()).hexdigest()[:32]
    man = os.path.join(CACHE, key + ".json")
    entries = []
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except ValueError:
            entries = []
    for e in entries:
        if all(fhash(p) == h for p, h in e["deps"].items()):
            obj = os.path.join(CACHE, e["obj"])
            if os.path.exists(obj):
                return obj
    tmp = os.path.join(CACHE, f"{key}.{os.getpid()}.tmp.o")
    dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"{src} ({cfg}) does not compile:\n{r.stderr[-3000:]}")
    text = open(dep).read().replace("\\\n", " ")
    deps = {}
    for p in text.split(":", 1)[1].split():
        p = os.path.normpath(p)
        if p.startswith(REPO + "/") or p.startswith(VERIF + "/"):
            deps[p] = fhash(p)
    oname = hashlib.sha256(json.dumps([key, deps], sort_keys=True).encode()).hexdigest()[:32] + ".o"
    obj = os.path.join(CACHE, oname)
    os.replace(tmp, obj)
    os.unlink(dep)
    entries = [e for e in entries if e["obj"] != oname][-3:] + [{"deps": deps, "obj": oname}]
    with open(man + f".{os.getpid()}", "w") as f:
        json.dump(entries, f)
    os.replace(man + f".{os.getpid()}", man)
    return obj

def link(cfg, objs, name):
    cc, flags, lflags = CONFIGS[cfg]
    key = hashlib.sha256(json.dumps([cfg, name] + objs + lflags).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", f"{name}.{cfg}.{key}")
    if os.path.exists(exe):
        return exe
    tmp = exe + f".{os.getpid()}.tmp"
    r = subprocess.run([cc] + lflags + ["-fuse-ld=gold" if os.path.exists("/usr/bin/ld.gold") else "-pthread"] + objs + ["-pthread", "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"linking {name} ({cfg}):\n{r.stderr[-3000:]}")
    os.replace(tmp, exe)
    return exe

def gc(limit=4 << 30):
    for d in (CACHE, os.path.join(BUILD, "bin")):
        files = sorted((os.stat(os.path.join(d, f)).st_mtime, os.stat(os.path.join(d, f)).st_size, os.path.join(d, f)) for f in os.listdir(d))
        total = sum(f[1] for f in files)
        for _, size, path in files:
            if total <= limit / 2:
                break
            os.unlink(path)
            total -= size

def build(targets, quiet=False):
    """targets: list of (harness source name without .cpp, cfg). Returns {(name,cfg): exe}."""
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    t0 = time.time()
    gc()
    libs = lib_sources()
    jobs = {}
    with ThreadPoolExecutor(JOBS) as ex:
        for name, cfg in targets:
            jobs.setdefault((cfg, "H", name), ex.submit(compile_one, cfg, os.path.join(VERIF, "harness", name + ".cpp")))
        for cfg in sorted({c for _, c in targets}):
            for s in libs:
                jobs[(cfg, "L", s)] = ex.submit(compile_one, cfg, s)
        res, errs = {}, []
        for k, j in jobs.items():
            try:
                res[k] = j.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs[:3]))
        out, lj = {}, {}
        for name, cfg in targets:
            objs = [res[(cfg, "H", name)]] + [res[(cfg, "L", s)] for s in libs]
            lj[(name, cfg)] = ex.submit(link, cfg, objs, name)
        for k, j in lj.items():
            out[k] = j.result()
    if not quiet:
        print(f"[build] {len(targets)} target(s) ready in {time.time()-t0:.1f}s", flush=True)
    return out

if __name__ == "__main__":
    for k, v in build([tuple(a.split(":")) for a in sys.argv[1:]]).items():
        print(k, v)
