#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  vf.py check C01 [--seed N] [--tier quick|thorough]   run one property's check
  vf.py replay replays/<file>.json                     re-run one recorded violation
  vf.py setup                                          tool sanity check (+ warm build)
  vf.py list

A check builds the library from /repo's working tree (never from a cache of another
tree: objects are keyed by the content of every source file), builds the property's
harness in the variants it asks for, runs the cases, collects what the monitors saw
and writes evidence/<id>.json.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: inconclusive / harness error.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "planner", "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BASE = ["-std=gnu++17", "-g1", "-UNDEBUG", "-include", "cassert", "-include", "algorithm",
        "-DPP_ENABLE_ASSERT", "-w"]
VARIANTS = {
    # the flags /opt/vp/build.sh uses
    "plain": {"cxx": "g++", "flags": ["-O2"], "link": []},
    "asan": {"cxx": "g++", "flags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                                      "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             "link": ["-fsanitize=address,undefined"]},
    "tsan": {"cxx": "g++", "flags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DPP_ENABLE_PROFILING"],
             "link": ["-fsanitize=thread"]},
    "prof": {"cxx": "g++", "flags": ["-O2", "-DPP_ENABLE_PROFILING"], "link": []},
    # the checking containers and iterators of the standard library
    "debug": {"cxx": "g++", "flags": ["-O1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"], "link": []},
    # the configurations of CMakeLists.txt that /opt/vp/build.sh does not use: everything off
    # and optimised, and everything on (logging, profiling, assertions), which is the default
    "release": {"cxx": "g++", "base": ["-std=gnu++17", "-g1", "-DNDEBUG", "-include", "cassert", "-include", "algorithm", "-w"], "flags": ["-O3"], "link": []},
    "default": {"cxx": "g++", "flags": ["-O1", "-DPP_ENABLE_LOG", "-DPP_ENABLE_PROFILING", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"], "link": [], "libs": ["-lspdlog", "-lfmt"]},
    "tsanlog": {"cxx": "g++", "flags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DPP_ENABLE_LOG", "-DPP_ENABLE_PROFILING", "-DSPDLOG_HEADER_ONLY", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_HEADER_ONLY"],
                "link": ["-fsanitize=thread"]},
    # the Python module, built from the same sources, and driven by pycheck/worker.py
    "py": {"cxx": "g++", "flags": ["-O2", "-fPIC"], "link": []},
    "pyasan": {"cxx": "g++", "flags": ["-O1", "-fPIC", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                                        "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
               "link": ["-fsanitize=address,undefined"]},
}
ENV = {
    "PYTHONHASHSEED": "0",
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:report_thread_leaks=0",
    "LC_ALL": "C",
}


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------------------- build
def source_files():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".cpp", ".inl")):
                out.append(os.path.join(root, f))
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise HarnessError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def flags_of(variant):
    v = VARIANTS[variant]
    return [v["cxx"]] + v.get("base", BASE) + v["flags"] + ["-I", SRC]


def lib_sources(variant):
    skip = set()
    if "-DPP_ENABLE_LOG" not in VARIANTS[variant]["flags"]:
        skip.add(os.path.join(SRC, "core", "log.cpp"))
    if "-DPP_ENABLE_PROFILING" not in VARIANTS[variant]["flags"]:
        skip.add(os.path.join(SRC, "debug", "profiler.cpp"))
    return [p for p in source_files() if p.endswith(".cpp") and p not in skip]


def py_includes():
    code = "import sysconfig; print(sysconfig.get_paths()['include'])"
    inc = subprocess.check_output(["/usr/bin/python3", "-c", code], text=True).split()
    return inc


class Builder:
    """Compiles objects into BUILD, keyed by the content of the whole source tree."""

    def __init__(self):
        self.headers = [p for p in source_files() if not p.endswith(".cpp")]
        self.hdr_digest = digest(self.headers)
        os.makedirs(BUILD, exist_ok=True)

    def obj(self, variant, src, extra_dep=()):
        key = digest([src] + list(extra_dep), self.hdr_digest + " ".join(flags_of(variant)))
        return os.path.join(BUILD, variant, os.path.basename(src) + "." + key + ".o")

    def compile_one(self, variant, src, out, inc=()):
        if os.path.exists(out):
            return
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        run(flags_of(variant) + list(inc) + ["-c", src, "-o", tmp])
        os.rename(tmp, out)

    def build(self, targets):
        """targets: list of (variant, harness source name). Returns {(variant, name): exe}."""
        lockf = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(lockf, fcntl.LOCK_EX)
        try:
            jobs, libobjs, exes = {}, {}, {}
            hdeps = sorted(glob.glob(os.path.join(HARNESS, "*.h")))
            pymods = {}
            for variant, name in targets:
                if variant not in libobjs:
                    libobjs[variant] = [self.obj(variant, s) for s in lib_sources(variant)]
                    for s, o in zip(lib_sources(variant), libobjs[variant]):
                        jobs[o] = (variant, s, ())
                if variant.startswith("py"):
                    inc = tuple("-I" + p for p in py_includes())
                    srcs = sorted(glob.glob(os.path.join(REPO, "interfaces", "python", "src", "*.cpp")))
                    heads = sorted(glob.glob(os.path.join(REPO, "interfaces", "python", "src", "*.h")))
                    mod = [self.obj(variant, p, heads) for p in srcs]
                    for p, o in zip(srcs, mod):
                        jobs[o] = (variant, p, inc + ("-fvisibility=hidden",))
                    osrc = os.path.join(HARNESS, "py_oracle.cpp")
                    oo = self.obj(variant, osrc, hdeps)
                    jobs[oo] = (variant, osrc, ("-I", HARNESS))
                    pymods[variant] = (mod, oo)
                    continue
                hs = os.path.join(HARNESS, name + ".cpp")
                jobs[self.obj(variant, hs, hdeps)] = (variant, hs, ("-I", HARNESS))
            # big translation units first
            order = sorted(jobs.items(), key=lambda kv: (not kv[1][1].startswith(HARNESS), -os.path.getsize(kv[1][1])))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = [ex.submit(self.compile_one, v, s, o, i) for o, (v, s, i) in order]
                for f in futs:
                    f.result()

                # The library is linked as a static archive, as the real build does.
                def link(variant, name):
                    if variant.startswith("py"):
                        return link_py(variant, name)
                    hs = os.path.join(HARNESS, name + ".cpp")
                    ho = self.obj(variant, hs, hdeps)
                    key = hashlib.sha256((ho + "".join(libobjs[variant])).encode()).hexdigest()[:20]
                    ar = os.path.join(BUILD, variant, "lib.%s.a" % hashlib.sha256("".join(libobjs[variant]).encode()).hexdigest()[:20])
                    exe = os.path.join(BUILD, variant, "%s.%s" % (name, key))
                    if not os.path.exists(exe):
                        run([VARIANTS[variant]["cxx"]] + VARIANTS[variant]["link"] + ["-rdynamic", ho, ar, "-lflann", "-llz4", "-lpthread"] + VARIANTS[variant].get("libs", []) + ["-o", exe + ".tmp"])
                        os.rename(exe + ".tmp", exe)
                    return exe

                def link_py(variant, name):
                    mod, oo = pymods[variant]
                    key = hashlib.sha256(("".join(mod) + oo + "".join(libobjs[variant])).encode()).hexdigest()[:20]
                    ar = os.path.join(BUILD, variant, "lib.%s.a" % hashlib.sha256("".join(libobjs[variant]).encode()).hexdigest()[:20])
                    d = os.path.join(BUILD, variant, "mod." + key)
                    exe = os.path.join(d, name)
                    os.makedirs(d, exist_ok=True)
                    for out, objs in (("pyplanning.so", mod), ("oracle.so", [oo])):
                        o = os.path.join(d, out)
                        if not os.path.exists(o):
                            run([VARIANTS[variant]["cxx"], "-shared"] + VARIANTS[variant]["link"] + objs + [ar, "-lflann", "-llz4", "-lpthread", "-o", o + ".tmp"])
                            os.rename(o + ".tmp", o)
                    shim = os.path.join(d, "seed.so")
                    if not os.path.exists(shim):
                        run(["g++", "-shared", "-fPIC", "-O1", os.path.join(HARNESS, "py_seed.cpp"), "-o", shim + ".tmp"])
                        os.rename(shim + ".tmp", shim)
                    pre = "LD_PRELOAD='%s' " % shim
                    if variant == "pyasan":
                        libs = [subprocess.check_output(["g++", "-print-file-name=" + x], text=True).strip() for x in ("libasan.so", "libstdc++.so")]
                        pre = "LD_PRELOAD='%s' PYTHONMALLOC=malloc ASAN_OPTIONS=\"$ASAN_OPTIONS:detect_leaks=0\" " % " ".join([libs[0], shim, libs[1]])
                    with open(exe, "w") as f:
                        f.write("#!/bin/sh\n%sexec /usr/bin/python3 -B %s --module %s \"$@\"\n" % (pre, os.path.join(VERIF, "pycheck", name + ".py"), d))
                    os.chmod(exe, 0o755)
                    return exe

                for variant, objs in libobjs.items():
                    ar = os.path.join(BUILD, variant, "lib.%s.a" % hashlib.sha256("".join(objs).encode()).hexdigest()[:20])
                    if not os.path.exists(ar):
                        run(["ar", "crs", ar + ".tmp"] + objs)
                        os.rename(ar + ".tmp", ar)
                futs = {(v, n): ex.submit(link, v, n) for v, n in targets}
                for k, f in futs.items():
                    exes[k] = f.result()
            return exes
        finally:
            fcntl.flock(lockf, fcntl.LOCK_UN)
            lockf.close()


# ----------------------------------------------------------------------------- run
def crash_key(rc, err):
    """A stable description of why the process died."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"ERROR: LeakSanitizer", err)
    if m:
        return "lsan:leak"
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m:
        return "tsan:" + m.group(1).replace(" ", "-")
    m = re.search(r"runtime error: (.{0,80})", err)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?|nan|inf", "N", m.group(1)).strip().replace(" ", "-")[:60]
    if "Assertion" in err:
        return "assert"
    names = {4: "SIGILL", 5: "SIGTRAP(PP_ASSERT)", 6: "SIGABRT", 8: "SIGFPE", 9: "SIGKILL", 11: "SIGSEGV", 7: "SIGBUS"}
    if rc < 0:
        return "signal:" + names.get(-rc, str(-rc))
    return "exit:%d" % rc


class Clock:
    """When to stop: a violation was seen a while ago, or the time of the tier is used up."""
    GRACE = 45.0

    def __init__(self, budget):
        self.end = time.time() + budget
        self.first = None

    def seen(self):
        if self.first is None:
            self.first = time.time()

    def stop(self):
        now = time.time()
        return now > self.end or (self.first is not None and now > self.first + self.GRACE)


def run_chunk(exe, variant, seed, start, count, only, tier, cpu, workdir, name, clock=None, matters=None):
    """Run cases [start, start+count) in one process; on a death, restart after the case that died."""
    res = {"ends": [], "fails": [], "counters": {}, "descs": [], "launches": 0, "errors": []}
    lo = start
    deaths = 0
    while lo < start + count:
        if clock and clock.stop():
            res["cut"] = True
            break
        out = os.path.join(workdir, "%s.%s.%s.%d.%d.jsonl" % (name, variant, only, start, lo))
        cmd = [exe, "--seed", str(seed), "--start", str(lo), "--count", str(start + count - lo), "--out", out, "--cpu", str(cpu)]
        if variant in ("plain", "prof"):
            cmd += ["--as-mb", "3500"]
        if only:
            cmd += ["--only", only]
        if tier == "thorough":
            cmd += ["--thorough"]
        env = dict(os.environ, **ENV)
        scratch = tempfile.mkdtemp(prefix="run", dir=workdir)
        wall = max(240, cpu * 4) + 3 * count
        timed_out = False
        with open(os.path.join(scratch, "stdout"), "wb") as so, open(os.path.join(scratch, "stderr"), "wb") as se:
            p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=so, stderr=se, stdin=subprocess.DEVNULL)
            until, cut, pos = time.time() + wall, False, 0
            while True:
                try:
                    rc = p.wait(timeout=2)
                    break
                except subprocess.TimeoutExpired:
                    timed_out = time.time() > until
                    cut = bool(clock and clock.stop())
                    if timed_out or cut:
                        p.kill()
                        p.wait()
                        rc = -9
                        break
                if clock and os.path.exists(out):  # a slow chunk: look at what it has found so far
                    with open(out, "rb") as f:
                        f.seek(pos)
                        new = f.read()
                    new = new[:new.rfind(b"\n") + 1]
                    pos += len(new)
                    for line in new.splitlines():
                        if b'"fail"' in line:
                            try:
                                ev = json.loads(line)
                            except ValueError:
                                continue
                            if ev.get("t") == "fail" and matters(ev["key"]):
                                clock.seen()
        with open(os.path.join(scratch, "stderr"), "rb") as f:
            err = f.read().decode("utf-8", "replace")[-20000:]
        shutil.rmtree(scratch, ignore_errors=True)
        res["launches"] += 1
        cur, curw, done, hang = None, None, False, False
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue
                    t = ev["t"]
                    if t == "begin":
                        cur, curw = ev["i"], ev["w"]
                    elif t == "fail":
                        ev.update(variant=variant, seed=seed, start=lo, harness=name)
                        res["fails"].append(ev)
                    elif t == "end":
                        res["ends"].append((ev["n"], ev["s"]))
                        if "d" in ev:
                            res["descs"].append(ev["d"])
                        cur = None
                    elif t == "hang":
                        hang = True
                    elif t == "done":
                        done = True
                        for k, v in ev["counters"].items():
                            if k.startswith("max:"):
                                res["counters"][k] = max(res["counters"].get(k, 0), v)
                            else:
                                res["counters"][k] = res["counters"].get(k, 0) + v
            os.unlink(out)
        if rc == -26:  # the CPU timer of a Python worker
            hang = True
        if done and rc == 0:
            break
        if cut and not done:
            res["cut"] = True
            break
        if done:  # died after the last case: leak report, static destructor, ...
            res["fails"].append({"i": lo, "w": "process-exit", "key": crash_key(rc, err), "msg": err[-3000:], "desc": "cases %d..%d" % (lo, start + count - 1),
                                 "variant": variant, "seed": seed, "start": lo, "harness": name, "whole": start + count - lo})
            break
        if cur is None and lo == start and res.get("stillborn", 0) < 1 and not timed_out:
            res["stillborn"] = 1  # once more, in case something else on the machine was the reason
            continue
        if cur is None and res.get("stillborn") and lo == start and not res["ends"] and not timed_out:
            # The harness does not even start: the library or the module cannot be loaded or initialised.
            res["fails"].append({"i": lo, "w": "startup", "key": "startup:" + crash_key(rc, err), "msg": err[-3000:], "desc": "", "variant": variant, "seed": seed, "start": lo, "harness": name, "whole": 1})
            if clock:
                clock.seen()
            break
        if cur is None:
            res["errors"].append("%s/%s died outside a case (rc %s): %s" % (name, variant, rc, err[-2000:]))
            break
        if timed_out:
            key = "wall-timeout"
        elif hang:
            key = "hang"
        else:
            key = crash_key(rc, err)
        res["fails"].append({"i": cur, "w": curw, "key": key, "msg": (err[:3000] if not hang else "case used more than %d s of CPU time" % cpu), "desc": "",
                             "variant": variant, "seed": seed, "start": lo, "harness": name})
        res["ends"].append((0, "0"))
        deaths += 1
        if clock and matters(key) and key not in ("hang", "wall-timeout"):
            clock.seen()
        if deaths >= 4:
            break  # enough evidence
        lo = cur + 1
    return res


CRASHES = ("asan", "ubsan", "lsan", "tsan", "signal", "assert", "exit", "hang", "wall-timeout", "exception", "startup")


def counts(r, key):
    """Does this monitor belong to the property of the run? (A crash or a hang always does.)"""
    return "keys" not in r or key in r["keys"] or key.split(":")[0] in CRASHES


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    runs = spec["runs"]
    exes = Builder().build(sorted({(r["variant"], r["harness"]) for r in runs}))
    tbuild = time.time() - t0
    workdir = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=BUILD)
    tasks, results, errors = [], [], []
    try:
        for r in runs:
            n = r["thorough" if tier == "thorough" else "quick"]
            chunk = r.get("chunk", max(1, min(250, (n + 4 * JOBS - 1) // (4 * JOBS))))
            for s in range(0, n, chunk):
                tasks.append((r, s, min(chunk, n - s)))
        # interleave so that slow variants do not all end up last
        tasks.sort(key=lambda t: (t[0]["variant"] == "plain", t[1]))
        known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
        clock = Clock((6 * 3600 if tier == "thorough" else 560) - tbuild)
        with cf.ThreadPoolExecutor(max(1, spec.get("jobs", JOBS))) as ex:
            futs = [(r, ex.submit(run_chunk, exes[(r["variant"], r["harness"])], r["variant"], seed, s, c, r.get("only"), tier, r.get("cpu", 60), workdir, r["harness"],
                                  clock, lambda key, r=r: counts(r, key) and not any(re.fullmatch(k["key"], key) for k in known)))
                    for r, s, c in tasks]
            for r, f in futs:
                res = f.result()
                results.append((r, res))
                errors += res["errors"]
        fails = []
        for r, res in results:
            for f in res["fails"]:
                if not counts(r, f["key"]):
                    continue
                fails.append((r, f))
        # A hang must repeat on its own, in a fresh process, before it is reported.
        confirmed, hangs = [], 0
        certain = any(f["key"] not in ("hang", "wall-timeout") for r, f in fails)
        for r, f in fails:
            if f["key"] in ("hang", "wall-timeout"):
                hangs += 1
                if certain or hangs > 3:
                    continue
                again = run_chunk(exes[(f["variant"], f["harness"])], f["variant"], f["seed"], f["i"], 1, r.get("only"), tier, r.get("cpu", 60), workdir, f["harness"])
                if not any(g["key"] in ("hang", "wall-timeout") for g in again["fails"]):
                    log("note: case %s hung once and not again; inconclusive for that case" % f["i"])
                    continue
                f["key"] = "hang"
            confirmed.append((r, f))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    fresh, seen_known = [], {}
    for r, f in confirmed:
        hit = None
        for k in known:
            if re.fullmatch(k["key"], f["key"]) and re.fullmatch(k.get("workload", ".*"), f["w"]) and re.search(k.get("match", ""), f["msg"] + " " + f["desc"]):
                hit = k
                break
        if hit:
            seen_known.setdefault(hit["id"], (hit, 0))
            seen_known[hit["id"]] = (hit, seen_known[hit["id"]][1] + 1)
        else:
            fresh.append((r, f))
    for k, n in seen_known.values():
        print("KNOWN-FINDING: property=%s %s (%d occurrences this run)" % (pid, k["what"], n))

    evaluations = sum(len(res["ends"]) for _, res in results)
    distinct = {s for _, res in results for n, s in res["ends"] if n}
    counters, samples = {}, []
    for r, res in results:
        for k, v in res["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
        samples += res["descs"]
    byw = {}
    for s in samples:
        byw.setdefault(s.split(":")[0], []).append(s)
    picked = [x for w in sorted(byw) for x in byw[w][:2]][:12]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": picked,
            "monitor_checks": {k[4:]: v for k, v in sorted(counters.items()) if k.startswith("chk:") and any(counts(r, k[4:]) for r in runs)},
            "workload_cases": {k[9:]: v for k, v in sorted(counters.items()) if k.startswith("workload:")},
            "observed": {k: v for k, v in sorted(counters.items()) if not k.startswith(("chk:", "workload:"))},
            "builds": sorted({"%s/%s" % (r["harness"], r["variant"]) for r in runs}),
            "cases_per_build": {},
            "chunks_cut_short": sum(1 for _, res in results if res.get("cut")),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    for r, res in results:
        k = "%s/%s" % (r["harness"], r["variant"])
        ev["coverage"]["cases_per_build"][k] = ev["coverage"]["cases_per_build"].get(k, 0) + len(res["ends"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%s tier=%s seed=%d cases=%d distinct_nontrivial=%d checks=%d build=%.0fs total=%.0fs" % (
        pid, tier, seed, evaluations, len(distinct), sum(ev["coverage"]["monitor_checks"].values()), tbuild, time.time() - t0))
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        shown = set()
        for r, f in fresh:
            key = (f["key"], f["w"])
            if key in shown:
                continue
            shown.add(key)
            if len(shown) > 8:
                break
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s-%s-%s-%d" % (pid, f["variant"], f["w"], f["key"], f["i"]))[:150] + ".json"
            path = os.path.join(REPLAYS, name)
            with open(path, "w") as g:
                json.dump({"property": pid, "tier": tier, "only": r.get("only"), "cpu": r.get("cpu", 60), **f}, g, indent=1)
            print("  [%s] %s case %d (%s): %s" % (f["key"], f["w"], f["i"], f["variant"], f["msg"][:600]))
            if f["desc"]:
                print("    case: " + f["desc"][:400])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
        return 1
    if errors:
        log("\n".join(errors))
        return 2
    if sum(1 for _, res in results if res.get("cut")) > len(results) // 2:
        log("inconclusive: the time was used up before half of the cases were run")
        return 2
    missing = [k for k in spec.get("require", []) if counters.get(k, 0) == 0]
    if missing or not distinct:
        log("inconclusive: nothing observed for %s" % (missing or "any case"))
        return 2
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    exe = Builder().build([(d["variant"], d["harness"])])[(d["variant"], d["harness"])]
    os.makedirs(BUILD, exist_ok=True)
    w = tempfile.mkdtemp(prefix="vf-replay-", dir=BUILD)
    try:
        n = d.get("whole", d["i"] - d["start"] + 1)
        for s, c in ((d["i"], 1), (d["start"], n)):
            res = run_chunk(exe, d["variant"], d["seed"], s, c, d.get("only"), d["tier"], d.get("cpu", 60), w, d["harness"])
            for f in res["fails"]:
                print("[%s] %s case %d: %s\n  case: %s" % (f["key"], f["w"], f["i"], f["msg"][:3000], f["desc"][:4000]))
            if res["fails"]:
                print("reproduced")
                return 1
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick", choices=["quick", "thorough"])
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("setup")
    sub.add_parser("list")
    a = ap.parse_args()
    try:
        if a.cmd == "check":
            sys.exit(check(a.id, a.tier, a.seed))
        if a.cmd == "replay":
            sys.exit(replay(a.file))
        if a.cmd == "setup":
            for t in ("g++", "ar"):
                if not shutil.which(t):
                    raise HarnessError("missing tool " + t)
            Builder().build([("plain", CHECKS["C14"]["runs"][0]["harness"])])
            print("setup ok")
        if a.cmd == "list":
            for k, v in CHECKS.items():
                print(k, sorted({(r["harness"], r["variant"], r["quick"], r["thorough"]) for r in v["runs"]}))
    except HarnessError as e:
        log("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
