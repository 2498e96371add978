"""Shared machinery of the checks: building the analyser, running TLC, running
scenarios against the real code, reporting.  Nothing in here knows a property."""
import concurrent.futures
import contextlib
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HARNESS = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HARNESS)
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(ROOT, "specs")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4
LLVM = "/usr/lib/llvm-20"


class CheckError(Exception):
    """The check itself could not do its work (not a verdict)."""


# --------------------------------------------------------------------------
# Building include-what-you-use from the working tree

CXXFLAGS = [
    '-DIWYU_GIT_REV="verif"',
    '-DIWYU_RESOURCE_BINARY_PATH="%s/bin/clang-20"' % LLVM,
    '-DIWYU_RESOURCE_DIR=""',
    "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
    "-fPIC", "-w", "-O0", "-DNDEBUG", "-std=c++17", "-fno-exceptions",
    "-funwind-tables",
]


def _sha(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in paths:
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def ensure_iwyu():
    """Path of an include-what-you-use built from REPO's current sources."""
    srcs = sorted(glob.glob(os.path.join(REPO, "*.cc")))
    hdrs = sorted(glob.glob(os.path.join(REPO, "*.h")))
    overlay_gen = os.path.join(HARNESS, "make_overlay.py")
    salt = " ".join(CXXFLAGS).encode()
    key = _sha(srcs + hdrs + [overlay_gen], salt)
    os.makedirs(BUILD, exist_ok=True)
    out_dir = os.path.join(BUILD, "iwyu-" + key)
    binary = os.path.join(out_dir, "include-what-you-use")
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(binary):
            os.utime(out_dir)
            return binary
        # Keep the cache small: drop all but the two newest builds.
        old = sorted(glob.glob(os.path.join(BUILD, "iwyu-*")), key=os.path.getmtime)
        for d in old[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        ov = os.path.join(BUILD, "overlay-" + _sha([overlay_gen]))
        if not os.path.exists(os.path.join(ov, "done")):
            subprocess.run([sys.executable, overlay_gen, ov], check=True)
            open(os.path.join(ov, "done"), "w").close()
        # Object cache: one object per (source, all headers).
        hkey = _sha(hdrs + [overlay_gen], salt)
        objdir = os.path.join(BUILD, "obj")
        os.makedirs(objdir, exist_ok=True)
        jobs = []
        for s in srcs:
            o = os.path.join(objdir, "%s-%s-%s.o" % (
                os.path.splitext(os.path.basename(s))[0], _sha([s]), hkey))
            jobs.append((s, o))

        def compile_one(job):
            s, o = job
            if os.path.exists(o):
                os.utime(o)
                return None
            tmp = o + ".%d.tmp" % os.getpid()
            r = subprocess.run(
                ["clang++-20"] + CXXFLAGS +
                ["-I" + ov, "-I%s/include" % LLVM, "-c", s, "-o", tmp],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return "%s:\n%s" % (s, r.stdout[-4000:])
            os.rename(tmp, o)
            return None

        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs:
            raise CheckError("include-what-you-use does not build:\n" + "\n".join(errs))
        os.makedirs(out_dir, exist_ok=True)
        tmp = binary + ".%d.tmp" % os.getpid()
        r = subprocess.run(
            ["clang++-20"] + [o for _, o in jobs] +
            ["-o", tmp, LLVM + "/lib/libclang-cpp.so.20.1", LLVM + "/lib/libLLVM.so.1",
             "-Wl,-rpath," + LLVM + "/lib"],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("include-what-you-use does not link:\n" + r.stdout[-4000:])
        os.rename(tmp, binary)
        # Prune old objects.
        objs = sorted(glob.glob(os.path.join(objdir, "*.o")), key=os.path.getmtime)
        for o in objs[:-60]:
            with contextlib.suppress(OSError):
                os.remove(o)
        return binary


# --------------------------------------------------------------------------
# Scratch space

_scratch_root = None


def scratch(name=""):
    """A fresh directory under this run's scratch root (removed at exit)."""
    global _scratch_root
    if _scratch_root is None:
        base = os.environ.get("VERIF_SCRATCH")
        if not base:
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        # A fixed-length name keeps path lengths, and so outputs, comparable.
        _scratch_root = tempfile.mkdtemp(prefix="verif-", dir=base)
    if not name:
        return tempfile.mkdtemp(prefix="d", dir=_scratch_root)
    d = os.path.join(_scratch_root, name)
    os.makedirs(d, exist_ok=True)
    return d


def cleanup_scratch():
    global _scratch_root
    if _scratch_root and os.path.isdir(_scratch_root) and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_scratch_root, ignore_errors=True)
    _scratch_root = None


def write_files(base, files):
    for name, text in files.items():
        p = os.path.join(base, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(p, mode) as f:
            f.write(text)


def pmap(fn, items, workers=None):
    """Map over items in threads (the work is child processes)."""
    with concurrent.futures.ThreadPoolExecutor(workers or NCPU + 2) as ex:
        return list(ex.map(fn, items))


# --------------------------------------------------------------------------
# TLC

class TlcResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            self.transitions = int(m[-1][0].replace(",", ""))
            self.states = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"number of states generated: ([\d,]+)", out) or \
                re.findall(r"([\d,]+) states checked", out)
            self.transitions = int(m[-1].replace(",", "")) if m else 0
            self.states = self.transitions
        self.records = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.records.append(json.loads(json.loads(line)[2:]))
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal properties?|Property|Postcondition) ?(\S*) (?:is|was|were) (?:violated|false)", out)
        self.ok = rc == 0


def tlc(module, cfg, consts=None, files=None, workers=None, simulate=None, depth=None,
        timeout=600, deadlock=None, allow=(0,), heap=None, seed=None, extra=None, coverage=False):
    """Run TLC on specs/<module>.tla in a private copy of the spec directory.

    cfg: text of the configuration.  files: extra files for the directory.
    """
    d = scratch()
    for f in glob.glob(os.path.join(SPECS, "*.tla")):
        shutil.copy(f, d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    for n, t in (files or {}).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", "-Djava.io.tmpdir=" + d]
    if heap:
        cmd.append("-Xmx" + heap)
    cmd += ["-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
            "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers or NCPU),
            "-noGenerateSpecTE", "-metadir", os.path.join(d, "md")]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        cmd += ["-seed", str(SEED if seed is None else seed)]
    if depth:
        cmd += ["-depth", str(depth)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += extra or []
    cmd.append(module + ".tla")
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    res = TlcResult(r.stdout, r.returncode)
    if os.environ.get("VERIF_TLC_LOG"):
        with open(os.environ["VERIF_TLC_LOG"], "a") as f:
            f.write(r.stdout)
    if r.returncode not in allow:
        tail = "\n".join(l for l in r.stdout.splitlines() if not re.match(r"\d+\. Line ", l)
                         and not l.startswith("/\\ w =") and not l.startswith(('"@@', "Parsing file", "Semantic proc")))
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, tail[-6000:]))
    shutil.rmtree(d, ignore_errors=True)
    return res


def model_check(ck, module, cfg, **kw):
    """Exhaustive check of the specification itself; its failure is a model
    failure (an error of the check), never a violation."""
    res = tlc(module, cfg, **kw)
    ck.states += res.states
    ck.transitions += res.transitions
    return res


def tlc_batch(ck, module, cfg, scenarios, filename="in.ndjson", shards=None, **kw):
    """Evaluate the specification on a list of scenarios (JSON objects), in
    several TLC processes; returns the emitted records sorted by id (1-based)."""
    n = len(scenarios)
    if n == 0:
        return []
    shards = shards or max(1, min(NCPU // 2, n // 150 or 1))
    bounds = [n * i // shards for i in range(shards + 1)]

    def one(i):
        part = scenarios[bounds[i]:bounds[i + 1]]
        text = "".join(json.dumps(s) + "\n" for s in part)
        res = tlc(module, cfg, files={filename: text},
                  workers=max(1, NCPU // shards), **kw)
        for r in res.records:
            r["id"] = r["id"] + bounds[i]
        return res

    results = pmap(one, range(shards), workers=shards)
    recs = []
    for res in results:
        ck.states += res.states
        ck.transitions += res.transitions
        recs.extend(res.records)
    recs.sort(key=lambda r: r["id"])
    return recs


# --------------------------------------------------------------------------
# Running a check

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.rule = ""
        self.violations = []      # (fingerprint, text, replay data)
        self.known_hit = set()
        self.rng = random.Random("%s/%d" % (prop, SEED))
        self.known = load_known(prop)
        self.kinds = {}

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, kind, n=1):
        self.kinds[kind] = self.kinds.get(kind, 0) + n

    def nontrivial(self, key):
        self.distinct.add(hashlib.sha1(
            json.dumps(key, sort_keys=True, default=str).encode()).hexdigest()[:16])

    def violation(self, what, replay, fingerprint=None):
        """Record a confirmed disagreement between code and specification."""
        fp = fingerprint or what
        for k in self.known:
            if k["match"] in fp:
                self.known_hit.add(k["id"])
                return
        self.violations.append((fp, what, replay))

    def finish(self):
        wall = time.time() - self.start
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick",
                  seed=SEED, level=self.level,
                  coverage=dict(
                      states=self.states, transitions=self.transitions,
                      traces_validated_against_impl=self.traces,
                      evaluations=self.evaluations,
                      distinct_nontrivial=len(self.distinct),
                      rule=self.rule, samples=self.samples or ["none"],
                      scenario_kinds=self.kinds, **self.notes),
                  assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k in self.known:
            if k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not self.violations:
            print("OK property=%s states=%d traces=%d evaluations=%d distinct=%d wall=%.1fs" % (
                self.prop, self.states, self.traces, self.evaluations, len(self.distinct), wall))
            return 0
        rdir = os.path.join(ROOT, "replays", self.prop)
        os.makedirs(rdir, exist_ok=True)
        for i, (fp, what, replay) in enumerate(self.violations[:10]):
            path = os.path.join(rdir, "%d.json" % i)
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, what=what, fingerprint=fp, replay=replay), f,
                          indent=1, default=str)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what.replace("\n", "\n  ")[:1500])
        if len(self.violations) > 10:
            print("  ... and %d more" % (len(self.violations) - 10))
        return 1


def load_known(prop):
    path = os.path.join(ROOT, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)$", line)
            if m and m.group(1) == prop:
                res.append(dict(id=m.group(2), match=json.loads(m.group(2))["fp"], what=m.group(3)))
    return res


def run_check(prop, body, level="model_checking"):
    ck = Check(prop, level)
    try:
        body(ck)
        rc = ck.finish()
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % prop)
        rc = 2
    finally:
        cleanup_scratch()
    sys.stdout.flush()
    return rc
