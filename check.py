#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [quick|thorough]      (also: --replay FILE)

exit 0: held on everything explored.  exit 1 + "VIOLATION property=.. replay=..": broken.
exit 2: the check could not decide (build failure, harness error, timeouts, nothing observed).
"""
import json, os, re, subprocess, sys, threading, time, queue, hashlib, tempfile, shutil, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vbuild
from props import PROPS

VERIF = os.path.dirname(os.path.abspath(__file__))
NPROC = os.cpu_count() or 8
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "120"))   # wall clock without progress
MAX_CRASHES = 4         # per chunk
PRLIMIT = shutil.which("prlimit")
MEM_LIMIT_MB = int(os.environ.get("VERIF_MEM_MB", "6000"))          # per harness process
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:malloc_context_size=12:allocator_may_return_null=1:hard_rss_limit_mb=3500:allow_addr2line=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
           LSAN_OPTIONS="exitcode=77",
           TSAN_OPTIONS="halt_on_error=0:exitcode=66:history_size=4:report_signal_unsafe=0:second_deadlock_stack=1",
           ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer", TSAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer",
           LC_ALL="C")

class Inconclusive(Exception):
    pass

def frames(err):
    out = []
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*\s*$", err, re.M):
        fn, path = m.group(1), m.group(2)
        fn = re.sub(r"\(.*", "", fn).replace("reactphysics3d::", "")
        out.append((fn, path))
    return out

def crash_key(rc, err):
    m = re.search(r"([\w./-]+):\d+: (?:.*?)Assertion [`'](.*)' failed", err)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", " ", m.group(2))[:120])
    repo = [f for f, p in frames(err) if p.startswith(vbuild.REPO + "/")]
    where = repo[0] if repo else "?"
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(2))[:80]
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), msg)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), where)
    if "LeakSanitizer" in err:
        return "leak:%s" % where
    if "ThreadSanitizer: data race" in err:
        return "race:%s" % where
    m = re.search(r"ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "tsan:%s:%s" % (m.group(1).strip(), where)
    m = re.search(r"terminate called.*?instance of '([^']+)'", err)
    if m:
        return "exception:%s" % m.group(1)
    if rc is not None and rc < 0:
        try:
            return "signal:%s" % signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%s" % rc

class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = PROPS[pid]
        self.tmp = tempfile.mkdtemp(prefix="vcheck.", dir=os.environ.get("TMPDIR", "/tmp"))
        self.lock = threading.Lock()
        self.viol = []                    # dicts
        self.stats = []                   # (run, dict)
        self.hashes = set()
        self.inconclusive = []
        self.stop = False
        self.n_fail_lines = 0

    def note_violation(self, run, case, key, msg):
        with self.lock:
            self.viol.append({"run": run, "case": case, "key": key, "msg": msg})
            if len(self.viol) > 400:
                self.stop = True

    def exec_chunk(self, run, exe, a, b, n):
        """Run cases [a,b). Returns None; records everything."""
        crashes = 0
        hang_retry = {}
        killed = 0
        while a < b and not self.stop:
            prog = os.path.join(self.tmp, f"p{n}")
            hsh = os.path.join(self.tmp, f"h{n}")
            for p in (prog, hsh):
                if os.path.exists(p):
                    os.unlink(p)
            cmd = [exe, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--progress", prog, "--hashes", hsh]
            if PRLIMIT and "a" not in run["cfg"] and run["cfg"] not in ("fu", "du", "ft"):
                cmd = [PRLIMIT, f"--as={MEM_LIMIT_MB << 20}"] + cmd     # memory that grows without end must end the case, not the sandbox
            if run.get("mode"):
                cmd += ["--mode", run["mode"]]
            if self.tier == "thorough":
                cmd += ["--thorough"]
            outp, errp = os.path.join(self.tmp, f"o{n}"), os.path.join(self.tmp, f"e{n}")
            with open(outp, "wb") as fo, open(errp, "wb") as fe:
                p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=dict(ENV, **run.get("env", {})), cwd=self.tmp)
                last, lastt, hung = None, time.time(), False
                t_end = None
                while True:
                    try:
                        p.wait(timeout=0.05 if t_end is None else 0.2)
                        break
                    except subprocess.TimeoutExpired:
                        t_end = 1
                    try:
                        cur = open(prog).read()
                    except OSError:
                        cur = None
                    if cur != last:
                        last, lastt = cur, time.time()
                    elif time.time() - lastt > CASE_TIMEOUT * run.get("slow", 1):
                        hung = True
                        p.kill(); p.wait()
                        break
                    if self.stop and len(self.viol) > 800:
                        p.kill(); p.wait(); return
            out = open(outp, errors="replace").read()
            err = open(errp, errors="replace").read()
            try:
                case = int(open(prog).read().split()[0])
            except (OSError, ValueError, IndexError):
                case = a
            for line in out.split("\n"):
                f = line.split("\t", 3)
                if f[0] == "FAIL" and len(f) == 4:
                    self.note_violation(run, int(f[2]), f[1], f[3])
                elif f[0] == "STATS":
                    with self.lock:
                        self.stats.append((run, json.loads(line.split("\t", 1)[1])))
            if os.path.exists(hsh):
                data = open(hsh, "rb").read()
                with self.lock:
                    for i in range(0, len(data), 8):
                        self.hashes.add(data[i:i + 8])
            rc = p.returncode
            if hung:
                if hang_retry.get(case, 0) < 1:
                    hang_retry[case] = 1
                    a = case
                    continue
                self.note_violation(run, case, "hang", f"no progress for {CASE_TIMEOUT:.0f}s, twice, in case {case}")
                crashes += 1
                a = case + 1
            elif rc == 0:
                return
            elif rc == 3:
                raise Inconclusive(f"harness error in {run['bin']} case {case}: {(out[-400:] + err[-800:])!r}")
            elif rc == 66 and run["cfg"] == "ft" and "STATS" in out:
                # races reported at the end of a complete run: one violation per distinct report
                for rep in err.split("=================="):
                    if "ThreadSanitizer" in rep:
                        self.note_violation(run, a, crash_key(rc, rep), rep.strip()[:1500].replace("\n", " | "))
                return
            elif rc == -signal.SIGKILL:
                killed += 1
                if killed < 2:
                    time.sleep(1)
                    a = case
                    continue
                self.note_violation(run, case, "memory-exhausted", f"{run['bin']} was killed twice, the last time in case {case}: memory ran out")
                return
            else:
                key = crash_key(rc, err)
                if "LeakSanitizer has encountered a fatal error" in err or "Sanitizer CHECK failed" in err:
                    raise Inconclusive("sanitizer runtime failure: " + err[-600:])
                tail = [l for l in err.strip().split("\n") if l.strip()]
                self.note_violation(run, case, key, " | ".join(tail[:14])[:1500] or f"exit {rc}")
                crashes += 1
                a = case + 1
            if crashes >= MAX_CRASHES:
                return

    def run(self):
        runs = [r for r in self.spec["runs"] if self.tier == "thorough" or not r.get("thorough_only")]
        exes = vbuild.build(sorted({(r["bin"], r["cfg"]) for r in runs}))
        tasks = queue.Queue()
        ntask = 0
        todo = []
        for r in runs:
            n = r["quick"] if self.tier == "quick" else r.get("thorough", r["quick"] * 30)
            off = r.get("offset", 0)
            chunks = min(n, r.get("chunks", 16 if self.tier == "quick" else 64))
            for i in range(chunks):
                lo, hi = off + n * i // chunks, off + n * (i + 1) // chunks
                if hi > lo:
                    todo.append((i / chunks, r, lo, hi))
        todo.sort(key=lambda t: (not t[1].get("heavy"), t[0]))
        for _, r, lo, hi in todo:
            tasks.put((r, exes[(r["bin"], r["cfg"])], lo, hi, ntask)); ntask += 1
        errs = []
        def worker():
            while not self.stop and not errs:
                try:
                    t = tasks.get_nowait()
                except queue.Empty:
                    return
                try:
                    self.exec_chunk(*t)
                except Inconclusive as e:
                    errs.append(str(e))
                except Exception as e:                      # noqa
                    errs.append(f"driver: {e!r}")
        ths = [threading.Thread(target=worker) for _ in range(self.spec.get("workers", NPROC))]
        [t.start() for t in ths]
        [t.join() for t in ths]
        self.inconclusive += errs

def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        exe = vbuild.build([(r["bin"], r["cfg"])])[(r["bin"], r["cfg"])]
        cmd = [exe, "--seed", str(r["seed"]), "--case", str(r["case"]), "--verbose"] + (["--mode", r["mode"]] if r.get("mode") else [])
        if r.get("tier") == "thorough":
            cmd.append("--thorough")
        print(" ".join(cmd), flush=True)
        sys.exit(subprocess.run(cmd, env=ENV).returncode)
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        R = Runner(pid, tier, seed)
        try:
            R.run()
        finally:
            shutil.rmtree(R.tmp, ignore_errors=True)
    except vbuild.BuildError as e:
        print("ERROR build:", e)
        sys.exit(2)
    known = load_known(pid)
    hit, new = {}, {}
    for v in R.viol:
        k = next((e for e in known if e["key"] == v["key"] and (not e.get("mode") or e["mode"] == (v["run"].get("mode") or ""))), None)
        if k is not None:
            hit.setdefault(k["key"], v)
        else:
            new.setdefault(v["key"], []).append(v)
    ev, cnt, mx, samples = 0, {}, {}, []
    for run, s in R.stats:
        ev += s["evaluations"]
        for k, v in s["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
        for k, v in s["maxima"].items():
            mx[k] = max(mx.get(k, v), v)
        samples += s["samples"]
    step = max(1, len(samples) // 8)
    samples = samples[::step][:8]
    cov = {"evaluations": int(ev), "distinct_nontrivial": len(R.hashes), "rule": R.spec["rule"], "samples": samples,
           "observed": {k: (int(v) if float(v).is_integer() else v) for k, v in sorted(cnt.items())}}
    if mx:
        cov["observed_maxima"] = dict(sorted(mx.items()))
    cov["runs"] = [{"harness": r["bin"], "build": r["cfg"], "mode": r.get("mode", ""), "cases": (r["quick"] if tier == "quick" else r.get("thorough", r["quick"] * 30))}
                   for r in R.spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    if R.inconclusive:
        cov["inconclusive"] = R.inconclusive[:5]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": R.spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
                   "violations": sum(len(v) for v in new.values())}, f, indent=1)
    for k, v in hit.items():
        e = next(e for e in known if e["key"] == k)
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for key, vs in sorted(new.items()):
            v = min(vs, key=lambda x: x["case"])
            name = f"{pid}-{hashlib.sha256(key.encode()).hexdigest()[:10]}.json"
            with open(os.path.join(VERIF, "replays", name), "w") as f:
                json.dump({"property": pid, "key": key, "bin": v["run"]["bin"], "cfg": v["run"]["cfg"], "mode": v["run"].get("mode", ""),
                           "seed": seed, "tier": tier, "case": v["case"], "message": v["msg"], "occurrences": len(vs)}, f, indent=1)
            print(f"[{key}] x{len(vs)} first: build={v['run']['cfg']} mode={v['run'].get('mode','')} case={v['case']}: {v['msg'][:600]}")
            print(f"VIOLATION property={pid} replay=replays/{name}")
        sys.exit(1)
    if R.inconclusive:
        print("INCONCLUSIVE:", R.inconclusive[0])
        sys.exit(2)
    if ev == 0 or len(R.hashes) < R.spec.get("min_distinct", 2):
        print(f"INCONCLUSIVE: the monitors observed too little (evaluations={ev}, distinct={len(R.hashes)})")
        sys.exit(2)
    print(f"OK property={pid} tier={tier} evaluations={ev} distinct={len(R.hashes)} wall={time.time()-t0:.1f}s")

if __name__ == "__main__":
    main()
