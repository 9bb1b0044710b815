#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py <ID> [--tier quick|thorough] [--replay FILE]
  run.py --setup

Builds /repo's current working tree with the sanitizers a property needs (out
of tree, through the repository's own CMake files), runs that property's
monitors over seeded workloads, writes evidence/<ID>.json and decides:
exit 0 held on everything explored, exit 1 with a VIOLATION line, exit 2 error.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
FIRST = bool(os.environ.get("VERIF_FIRST"))  # stop at the first violation
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

COMMON = "-w -g1 -fno-omit-frame-pointer"
FLAVOURS = {
    "asan": COMMON + " -O1 -fsanitize=address,undefined -fno-sanitize-recover=all",
    "tsan": COMMON + " -O1 -fsanitize=thread",
    "plain": COMMON + " -O1",
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:check_initialization_order=1:allocator_may_return_null=0:max_malloc_fill_size=16777216",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:report_thread_leaks=0",
    "GLOG_minloglevel": "2",
    "GLOG_logtostderr": "1",
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("src", "include", "subpackages")]
    files = [os.path.join(REPO, "CMakeLists.txt")]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn[:] = sorted(d for d in dn if not d.startswith((".", "_build", "build")))
            files += [os.path.join(dp, f) for f in sorted(fn)]
    for f in files:
        try:
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
    return h.hexdigest()


def build(flavour, targets, log):
    """Builds the targets; returns the directory of the executables."""
    os.makedirs(CACHE, exist_ok=True)
    bdir = os.path.join(CACHE, "build-" + flavour)
    with open(os.path.join(CACHE, "lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash() + FLAVOURS[flavour]
        stamp = os.path.join(bdir, "tree.hash")
        try:
            have = open(stamp).read()
        except OSError:
            have = None
        if have != want and os.path.isdir(bdir):
            shutil.rmtree(bdir)
        os.makedirs(bdir, exist_ok=True)
        env = dict(os.environ, CC="gcc", CXX="g++")
        lib = sorted({t for c in CHECKS.values() for t in c["targets"] if c["kind"] == "lib"})
        dt = sorted({t for c in CHECKS.values() for t in c["targets"] if c["kind"] == "dt"})
        cmd = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bdir, "-G", "Ninja",
               "-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_FLAGS=" + FLAVOURS[flavour],
               "-DREPO=" + REPO, "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
               "-DNLopt_DIR=/usr/lib/x86_64-linux-gnu/cmake/nlopt",
               "-DLIB_HARNESSES=" + ";".join(lib), "-DDT_HARNESSES=" + ";".join(dt)]
        if shutil.which("ccache"):
            env["CCACHE_DIR"] = os.path.join(CACHE, "ccache")
            env["CCACHE_MAXSIZE"] = "2G"
            cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
        for c in (cmd, ["ninja", "-C", bdir, "-j8"] + targets):
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
            log.append(p.stdout[-6000:])
            if p.returncode != 0:
                raise BuildError("%s failed:\n%s" % (" ".join(c[:4]), p.stdout[-6000:]))
        with open(stamp, "w") as f:
            f.write(want)
    return bdir


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                known.append(json.loads(line))
    return known


def tsan_reports(prefix, pid_any=True):
    import glob
    out = []
    for f in sorted(glob.glob(prefix + ".*")):
        try:
            txt = open(f, errors="replace").read()
        except OSError:
            continue
        for block in txt.split("=================="):
            if "WARNING: ThreadSanitizer" in block:
                out.append(block.strip())
    return out


def tsan_key(rep):
    """kind + the two top repository functions involved (no line numbers)."""
    import re
    kind = "race"
    m = re.search(r"WARNING: ThreadSanitizer: ([^(]+)\(", rep)
    if m:
        kind = m.group(1).strip().replace(" ", "-")
    fns = []
    for line in rep.splitlines():
        m = re.match(r"\s*#\d+ (.*?) (/\S+):\d+", line)
        if m and (REPO + "/") in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            if fn not in fns:
                fns.append(fn)
        if len(fns) >= 2:
            break
    return "tsan." + kind + ":" + "|".join(sorted(fns))


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.chk = CHECKS[pid]
        self.results, self.crashes, self.hangs, self.errors = [], [], [], []
        self.tsan = {}
        self.stop, self.rerun = threading.Event(), threading.Lock()
        self.deadline = time.time() + (600 if tier == "quick" else 6 * 3600)
        self.tmp = os.path.join(CACHE, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)

    def one(self, bdir, target, begin, end, n, verbose=False):
        out = os.path.join(self.tmp, "out-%d.json" % n)
        prog = os.path.join(self.tmp, "prog-%d" % n)
        err = os.path.join(self.tmp, "err-%d" % n)
        tsp = os.path.join(self.tmp, "tsan-%d" % n)
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(os.environ)
        env.update(ENV)
        env["TSAN_OPTIONS"] = ENV["TSAN_OPTIONS"] + ":log_path=" + tsp
        sup = os.path.join(VERIF, "harness", "tsan.supp")
        if os.path.exists(sup):
            env["TSAN_OPTIONS"] += ":suppressions=" + sup
        env["VERIF_SCRATCH"] = os.path.join(self.tmp, "scratch-%d" % n)
        os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
        env.update(self.chk.get("env", {}))
        base, _, flavour = target.partition("@")  # a target may run in several flavours
        cmd = [os.path.join(bdir[flavour or self.chk["flavour"]], base), "--seed", str(self.seed), "--begin", str(begin), "--end", str(end),
               "--tier", self.tier, "--out", out, "--progress", prog, "--verbose", "1" if verbose else "0"]
        t0 = time.time()
        stall = self.chk.get("stall_s", 90)
        with open(err, "w") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=env["VERIF_SCRATCH"])
            rc, timed, last, since = None, False, None, t0
            while True:
                try:
                    rc = p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = open(prog, "rb").read(8)
                except OSError:
                    cur = None
                now = time.time()
                if cur != last:
                    last, since = cur, now
                # one case that does not end, or no time left, or enough seen
                if now - since > stall or now > self.deadline or self.stop.is_set():
                    timed = "stopped" if self.stop.is_set() else "deadline" if now > self.deadline else "stall"
                    p.kill()
                    p.wait()
                    break
        case = begin
        try:
            case = int.from_bytes(open(prog, "rb").read(8), "little", signed=True)
        except OSError:
            pass
        tail = open(err, errors="replace").read()
        if len(tail) > 8000:
            tail = tail[:2500] + "\n...\n" + tail[-5000:]
        res = None
        if rc == 0 and os.path.exists(out):
            res = json.load(open(out))
        return dict(rc=rc, timed=timed, case=case, tail=tail, res=res, target=target, begin=begin, end=end,
                    wall=time.time() - t0, tsan=tsan_reports(tsp))

    def collect(self, r):
        for rep in r["tsan"]:
            k = tsan_key(rep)
            self.tsan.setdefault(k, (rep, r["target"], r["case"] if r["case"] >= 0 else r["begin"]))
        if r["res"] is not None:
            r["res"]["_target"] = r["target"]
            self.results.append(r["res"])
        elif r["timed"]:
            c = r["case"] if r["case"] >= 0 else r["begin"]
            if r["timed"] == "stall" and r["confirmed"]:
                self.hangs.append((r["target"], c, r["tail"]))
            elif r["timed"] == "stall":
                self.errors.append("case %d of %s did not end in time, but does alone" % (c, r["target"]))
            elif r["timed"] == "deadline":
                self.errors.append("cases %d-%d of %s were not run in the time there is" % (c, r["end"], r["target"]))
        else:
            self.crashes.append((r["target"], r["case"], r["rc"], r["tail"]))

    def run(self, bdir):
        jobs = []
        n = 0
        width = self.chk.get("jobs", 8)
        for target in self.chk["cases"]:
            total = self.chk["cases"][target][0 if self.tier == "quick" else 1]
            chunks = min(total, self.chk.get("chunks", width) * (1 if self.tier == "quick" else 4))
            for k in range(chunks):
                b, e = total * k // chunks, total * (k + 1) // chunks
                if e > b:
                    jobs.append((target, b, e, n))
                    n += 1
        with ThreadPoolExecutor(width) as ex:
            for f in [ex.submit(self.chunk, bdir, *j) for j in jobs]:
                self.collect(f.result())

    def chunk(self, bdir, target, begin, end, n):
        """A range of cases; a case that does not end is run once more, alone."""
        if self.stop.is_set():
            return dict(res=None, timed="stopped", case=begin, begin=begin, end=end, target=target, tail="", tsan=[])
        r = self.one(bdir, target, begin, end, n)
        r["confirmed"] = False
        if r["timed"] == "stall":
            c = r["case"] if r["case"] >= 0 else begin
            with self.rerun:
                if not self.stop.is_set():
                    r2 = self.one(bdir, target, c, c + 1, n + 5000)
                    r["confirmed"] = r2["timed"] == "stall" or r2["rc"] not in (0, None)
                    if r["confirmed"]:
                        self.stop.set()
        if FIRST and (r["tsan"] or not r["timed"] and (r["res"] is None or r["res"]["violations"])):
            self.stop.set()
        return r


def crash_kind(rc, tail):
    import re
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", tail)
    if m:
        return "asan." + m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,80})", tail)
    if m:
        return "ubsan"
    if "Check failed" in tail:
        return "check-abort"
    if "Assertion" in tail:
        return "assertion"
    if rc is not None and rc < 0:
        return "signal%d" % -rc
    return "exit%s" % rc


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for t in ("cmake", "ninja", "g++"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(EVID, exist_ok=True)
        print("setup ok")
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    k = 1
    while k < len(args):
        if args[k] == "--tier":
            tier = args[k + 1]; k += 2
        elif args[k] == "--replay":
            replay = json.load(open(args[k + 1])); k += 2
        else:
            print("unknown argument", args[k]); return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    t0 = time.time()
    chk = CHECKS[pid]
    log = []
    flavour = chk["flavour"]
    try:
        bdir = {}
        for fl in [flavour] + [t.split("@")[1] for t in chk["cases"] if "@" in t]:
            names = [t.split("@")[0] for t in chk["cases"] if (t.split("@") + [flavour])[1] == fl]
            bdir.setdefault(fl, build(fl, names, log))
    except BuildError as e:
        print(str(e)[-4000:])
        print("ERROR: build failed")
        return 2
    tb = time.time() - t0
    r = Runner(pid, tier, seed)
    try:
        if replay:
            c = replay["case"]
            x = r.one(bdir, replay["target"], c, c + 1, 0, verbose=True)
            x["confirmed"] = True
            r.collect(x)
            print(x["tail"])
        else:
            r.run(bdir)
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)

    # ---- gather -------------------------------------------------------------
    found = []  # (key, target, case, detail)
    counters, maxima, distinct, samples, evals = {}, {}, set(), [], 0
    vcounts = {}
    for res in r.results:
        evals += res["evaluations"]
        distinct.update(res["distinct"])
        for a, b in res["counters"].items():
            counters[a] = counters.get(a, 0) + b
        for a, b in res["maxima"].items():
            maxima[a] = max(maxima.get(a, -1e308), b)
        for a, b in res["violation_counts"].items():
            vcounts[a] = vcounts.get(a, 0) + b
        samples += res["samples"][:1]
        for v in res["violations"]:
            found.append((v["key"], res["_target"], v["case"], v["detail"]))
    for (t, c, rc, tail) in r.crashes:
        found.append(("crash." + crash_kind(rc, tail), t, c, tail))
    for (t, c, tail) in r.hangs:
        found.append(("hang", t, c, tail))
    for key, (rep, t, c) in r.tsan.items():
        found.append((key, t, c, rep))
        vcounts[key] = vcounts.get(key, 0) + 1
    # an operation that may refuse must not refuse as a rule
    for num, den, limit, key in chk.get("ratio_limits", []):
        if not replay and counters.get(den, 0) > 0 and counters.get(num, 0) > limit * counters[den]:
            found.append((key, chk["targets"][0], 0, "%s=%d of %s=%d exceeds %g" %
                          (num, counters.get(num, 0), den, counters[den], limit)))
    # a monitor that saw nothing decides nothing
    for name in chk.get("must_observe", []):
        if not replay and not found and counters.get(name, 0) <= 0:
            r.errors.append("monitor observed no '%s' event" % name)

    known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
    listed = {k["key"]: k for k in known}
    new, seen_known = {}, {}
    for key, t, c, d in found:
        if key in listed:
            seen_known.setdefault(key, (t, c, d))
        else:
            new.setdefault(key, (t, c, d))
    os.makedirs(EVID, exist_ok=True)
    if not replay:
        cov = {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": chk["rule"],
            "samples": samples[:6] or ["none"],
            "observed": counters,
            "largest_residuals": maxima,
        }
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(new)}
        ev["coverage"]["build_s"] = round(tb, 2)
        ev["coverage"]["known_findings_seen"] = sorted(seen_known)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for key, k in sorted(listed.items()):
        if replay:
            break
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if key in seen_known else " (not re-observed in this run)"))
    rc = 0
    if new:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, (key, (t, c, d)) in enumerate(sorted(new.items())):
            path = os.path.join(rdir, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "target": t, "case": c, "seed": seed, "tier": tier,
                           "count": vcounts.get(key, 1), "detail": d}, f, indent=1)
            print("--- %s (case %s, seen %d times): %s" % (key, c, vcounts.get(key, 1), d[:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif r.errors:
        for e in r.errors:
            print("ERROR:", e)
        rc = 2
    print("%s %s: %d evaluations, %d distinct, build %.1fs, total %.1fs, exit %d" %
          (pid, tier, evals, len(distinct), tb, time.time() - t0, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
