"""T01-T04: the driver script iwyu_tool.py, run for real with a stand-in
analyser, against the specifications ToolSched/ToolTrace, ToolSelect, ToolClang."""
import json
import os
import shlex
import shutil
import struct
import subprocess
import sys
import threading
import time

from lib import *

TOOL = os.path.join(REPO, "iwyu_tool.py")
PY = sys.executable


def build_fake():
    d = scratch("fakebin")
    exe = os.path.join(d, "include-what-you-use")
    if not os.path.exists(exe):
        r = subprocess.run(["cc", "-O1", "-o", exe, os.path.join(HARNESS, "fake_iwyu.c")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("stand-in analyser does not build: " + r.stdout)
    return exe


def tool_env(fake, d):
    env = {k: v for k, v in os.environ.items() if not k.startswith("IWYU")}
    env.update(IWYU_BINARY=fake, FAKE_DIR=d, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    return env


def read_log(d):
    try:
        with open(os.path.join(d, "log")) as f:
            return [l.split() for l in f.read().splitlines() if l]
    except OSError:
        return []


# --------------------------------------------------------------------------
# T01 / T02: scheduling

def play(sc, fake, timeout=40):
    """Run iwyu_tool.py on one schedule; returns the recorded trace."""
    d = scratch()
    n, jobs, limit = sc["n"], sc["jobs"], sc["limit"]
    db = []
    for i in range(1, n + 1):
        db.append(dict(directory=d, file="f%d.cc" % i, arguments=["g++", "-DID=%d" % i, "f%d.cc" % i]))
        with open(os.path.join(d, "code.%d" % i), "w") as f:
            f.write(str(sc["code"][i - 1]))
        with open(os.path.join(d, "plan.%d" % i), "wb") as f:
            for fd, data in sc["plan"][i - 1]:
                if fd == 0:
                    f.write(struct.pack("<BI", 0, data))
                else:
                    b = data.encode("utf-8", "surrogateescape")
                    f.write(struct.pack("<BI", fd, len(b)) + b)
    with open(os.path.join(d, "compile_commands.json"), "w") as f:
        json.dump(db, f)
    order = [h["v"] for h in sc["hist"] if h["e"] == "end"]
    loads = [h["v"] for h in sc["hist"] if h["e"] == "load"]
    if limit:
        with open(os.path.join(d, "loads"), "w") as f:
            f.write(" ".join(map(str, loads or [0])))
    gated = sc.get("gated", True)
    if gated:
        open(os.path.join(d, "gated"), "w").close()
    args = ["-p", d, "-j", str(jobs)]
    if limit:
        args += ["-l", str(limit / 4.0)]
    p = subprocess.Popen([PY, os.path.join(HARNESS, "tool_shim.py"), d, TOOL] + args,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tool_env(fake, d),
                         cwd=d, start_new_session=True)
    res = {}

    def drain(name, f):
        res[name] = f.read()

    ths = [threading.Thread(target=drain, args=a) for a in (("out", p.stdout), ("err", p.stderr))]
    for t in ths:
        t.start()
    deadline = time.time() + timeout

    def seen(ev, i, until):
        while time.time() < until:
            if any(x[0] == ev and x[1] == str(i) for x in read_log(d)):
                return True
            if p.poll() is not None:
                return any(x[0] == ev and x[1] == str(i) for x in read_log(d))
            time.sleep(0.001)
        return False

    if gated:
        # Let the analyses end in the order of the schedule; if the script does
        # not start them as eagerly as the specification allows, let go.
        for i in order:
            if not seen("start", i, min(deadline, time.time() + 4)):
                break
            open(os.path.join(d, "go.%d" % i), "w").close()
            if not seen("end", i, min(deadline, time.time() + 4)):
                break
        for i in range(1, n + 1):
            open(os.path.join(d, "go.%d" % i), "w").close()
    hung = False
    try:
        p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        hung = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    for t in ths:
        t.join(5)
    ev = []
    for x in read_log(d):
        if x[0] == "start":
            continue
        v = int(x[1]) if x[1].isdigit() else 999
        ev.append(dict(e=x[0], v=v))
    out = res.get("out", b"").decode("utf-8", "backslashreplace")
    blocks, rest = split_blocks(out, sc)
    ev += [dict(e="block", v=b) for b in blocks]
    ev.append(dict(e="exit", v=p.returncode % 256))
    shutil.rmtree(d, ignore_errors=True)
    return dict(n=n, jobs=jobs, limit=limit, code=sc["code"], ev=ev), dict(
        hung=hung, rest=rest[:400], err=res.get("err", b"").decode("utf-8", "replace")[-600:])


def split_blocks(out, sc):
    """Cut the output into whole blocks.  Returns the order of blocks and
    whatever could not be explained as a block."""
    texts = {}
    for i, plan in enumerate(sc["plan"], 1):
        texts[i] = "".join(t for fd, t in plan if fd).encode(
            "utf-8", "surrogateescape").decode("utf-8", "backslashreplace")
    left = {i for i in texts if texts[i].strip()}
    empty = [i for i in sorted(texts) if not texts[i].strip()]
    blocks, pos = [], 0
    while pos < len(out):
        hit = None
        for i in left:
            if out.startswith(texts[i], pos):
                hit = i
                break
        if hit is not None:
            blocks.append(hit)
            left.discard(hit)
            pos += len(texts[hit])
        elif out[pos].isspace():
            pos += 1
        else:
            return blocks, out[pos:]
    # Blocks without visible text cannot be told apart: put them where they fit.
    if sc["jobs"] == 1:
        for i in empty:
            k = 0
            while k < len(blocks) and blocks[k] < i:
                k += 1
            blocks.insert(k, i)
    else:
        blocks += empty
    return blocks, ""


def rand_plan(rng, i):
    kind = rng.choice(["one", "one", "nonl", "many", "big", "empty", "mixed", "utf8", "bytes", "blank", "slow"])
    tag = "<<%d>>" % i
    if kind == "empty":
        return []
    if kind == "blank":
        return [(1, tag + "\n\n\n")]
    if kind == "one":
        return [(rng.choice([1, 2]), "%s line\n" % tag)]
    if kind == "nonl":
        return [(1, "%s no newline at the end" % tag)]
    if kind == "many":
        return [(1, "%s %d\n" % (tag, k)) for k in range(rng.randint(2, 40))]
    if kind == "big":
        return [(rng.choice([1, 2]), ("%s %d " % (tag, k)) + "x" * rng.randint(100, 9000) + "\n")
                for k in range(rng.randint(10, 40))]
    if kind == "bytes":
        # not UTF-8: a Latin-1 name, a cut-off sequence
        return [(1, "%s caf\udce9.cc:1\n" % tag), (2, "%s \u20ac\udce2\udc82\n" % tag)]
    if kind == "utf8":
        return [(1, "%s \u00e4\u20ac\U0001f600 \u65e5\u672c\n" % tag), (2, "%s \u00df\n" % tag)]
    if kind == "slow":
        r = []
        for k in range(6):
            r.append((rng.choice([1, 2]), "%s part %d\n" % (tag, k)))
            r.append((0, rng.randint(100, 3000)))
        return r
    return [(rng.choice([1, 2]), "%s fd %d\n" % (tag, k)) for k in range(rng.randint(2, 12))]


MC_CFG = """SPECIFICATION Spec
CONSTANTS MaxN=%d MaxJobs=%d Codes<-CodesSmall Loads={0,4,9} Limits={0,8}
INVARIANTS OnceEach WithinJobs SerialOrder ExitIsWorst
PROPERTIES Progress LoadRule
CHECK_DEADLOCK FALSE
"""
GEN_CFG = """INIT GenInit
NEXT GenNext
CONSTANTS MaxN=%d MaxJobs=%d Codes<-CodesFull Loads={0,2,5,9,14,40} Limits={0,0,6,8,13}
CHECK_DEADLOCK FALSE
"""
TRACE_CFG = """INIT TInit
NEXT TNext
CONSTANTS MaxN=3 MaxJobs=3 Codes={0} Loads={0} Limits={0}
CHECK_DEADLOCK FALSE
"""


def sched_body(which):
    def body(ck):
        fake = build_fake()
        n = 4 if THOROUGH else 3
        model_check(ck, "ToolSched", MC_CFG % (n, 3 if THOROUGH else 2))
        gen = tlc("ToolSchedGen", GEN_CFG % (9 if THOROUGH else 7, 5),
                  simulate=1200 if THOROUGH else 260, depth=300, workers=1)
        ck.states += gen.states
        ck.transitions += gen.transitions
        scs = [r for r in gen.records]
        # The simulator prefers small n; keep a varied selection.
        ck.rng.shuffle(scs)
        scs.sort(key=lambda s: -s["n"])
        scs = scs[:(700 if THOROUGH else 150)]
        codes = [0, 0, 1, 2, 3, 77, 255, -1, -2, -6, -9, -11, -15]
        for s in scs:
            if ck.rng.random() < 0.7:
                s["code"] = [ck.rng.choice(codes) for _ in s["code"]]
            s["plan"] = [rand_plan(ck.rng, i) for i in range(1, s["n"] + 1)]
            s["gated"] = ck.rng.random() < 0.85
        if which == "out":
            for k, codes in enumerate(([0], [255], [-9], [3, -2], [-15, -2, 7], [1, 2, 1], [0, 0, 5, 0], [2, -11, 3])):
                for jobs in (1, 2):
                    scs.append(dict(n=len(codes), jobs=jobs, limit=0, code=codes, hist=[], gated=False,
                                    plan=[rand_plan(ck.rng, i) for i in range(1, len(codes) + 1)]))
        else:
            for jobs in (1, 2, 3):
                for n in (0, 5):
                    # the load never drops below the limit
                    scs.append(dict(n=n, jobs=jobs, limit=4, code=[0] * n, gated=False,
                                    hist=[dict(e="load", v=40)], plan=[[] for _ in range(n)]))

        hangs = []

        def run(sc):
            if len(hangs) >= 4:      # enough to judge; do not sit through more
                return None
            tr, info = play(sc, fake)
            if info["hung"]:
                hangs.append(1)
            tr["chk"] = which
            return tr, info

        res = pmap(run, scs, workers=NCPU)
        scs = [s for s, r in zip(scs, res) if r]
        res = [r for r in res if r]
        verdicts = tlc_batch(ck, "ToolTrace", TRACE_CFG, [t for t, _ in res])
        vmap = {v["id"]: v for v in verdicts}
        bad = []
        for k, (tr, info) in enumerate(res):
            ck.evaluations += 1
            ck.traces += 1
            ck.count("jobs=%d%s" % (tr["jobs"], ",load" if tr["limit"] else ""))
            if tr["n"] >= 2:
                ck.nontrivial([tr["jobs"], tr["limit"], tr["code"], tr["ev"]])
            v = vmap.get(k + 1)
            if v is None:
                raise CheckError("no verdict for trace %d" % (k + 1))
            problem = None
            if which == "out" and info["rest"]:
                problem = "output not made of whole blocks, at: %r" % info["rest"]
            elif not v["accepted"] and not (which == "out" and info["hung"]):
                problem = "event %d %s not allowed by the specification (running: %s)" % (
                    v["at"], v["event"], v["alive"])
                if info["hung"]:
                    problem = "the script did not come to an end; " + problem
            if problem:
                bad.append((k, problem, info))
            else:
                ck.sample(dict(n=tr["n"], jobs=tr["jobs"], limit=tr["limit"], events=tr["ev"][:30]), 3)
        for k, problem, info in bad[:12]:
            # Believe a rejection only if the same schedule is rejected again.
            again = 0
            for _ in range(2):
                tr, i2 = play(scs[k], fake, timeout=60)
                tr["chk"] = which
                v = tlc_batch(ck, "ToolTrace", TRACE_CFG, [tr])[0]
                if not v["accepted"] or (which == "out" and i2["rest"]):
                    again += 1
                    break
            if len(ck.violations) >= 3:
                break
            if again:
                ck.violation(problem, dict(scenario=scs[k], trace=res[k][0], stderr=info["err"]))
        ck.rule = ("schedules simulated from ToolSchedGen and forced onto the real script by gating the "
                   "stand-in analyses; non-trivial: at least two commands, distinct recorded event sequences")
        ck.assumptions = ["a stand-in analyser and recorded os.getloadavg/subprocess.Popen calls stand for the real ones"]
    return body


# --------------------------------------------------------------------------
# T03: selection and command rewriting

NAMES = ["a", "ab", "a.b", "abc", "src", "src2", "x"]
FILES = ["x.cc", "x.c", "x.cc.cc", "xx.cc", "x", "main.cpp", "a.cc", "ab.cc"]
COMPILERS = ["g++", "clang++", "/usr/bin/c++", "cl.exe", "C:/vs/cl.exe", "clang-cl", "/opt/llvm/bin/clang-cl",
             "clang", "gcc", "cl.exe2", "ccache-g++", "mycl.exe", "clang-cl-18", "cl", "../bin/g++"]
ARGPOOL = ["-c", "-O2", "-Iinc", "-I", "dir with space", "-DX=1", '-DS="quoted str"', "-DQ='single'", "-DBS=a\\b",
           "-DE=\\\"esc\\\"", "-std=c++17", "-o", "out.o", "-W\"x y\"", "a b  c", "$HOME", "*.cc", "#notcomment",
           "-Dempty=", "", "-D'", '-D"', "ccache", "--driver-mode=cl", "@rsp", "-DU=\u00e4\u20ac", "x;y&z", "-include", "tab\there",
           "back\\slash", "--", "-Xiwyu", "~", "new\nline"]


def rand_fs(rng):
    """A small tree: directories, files and links (paths as component lists)."""
    dirs = [[]]
    for _ in range(rng.randint(3, 7)):
        d = rng.choice(dirs) + [rng.choice(NAMES)]
        if d not in dirs and len(d) <= 3:
            dirs.append(d)
    files = []
    for _ in range(rng.randint(3, 10)):
        f = rng.choice(dirs) + [rng.choice(FILES)]
        if f not in files and f not in dirs:
            files.append(f)
    links = []
    used = {tuple(x) for x in dirs + files}
    for k in range(rng.randint(0, 3)):
        at = rng.choice(dirs) + [rng.choice(["lnk", "l2", "a", "ab", "z.cc"])]
        if tuple(at) in used:
            continue
        used.add(tuple(at))
        tgt = rng.choice(dirs + files)
        if not tgt:
            continue
        if rng.random() < 0.4:
            links.append(dict(at=at, to=tgt, abs=True))
        else:
            up = [".."] * (len(at) - 1)
            links.append(dict(at=at, to=up + tgt, abs=False))
    return dirs, files, links


def rand_ref(rng, dirs, files, links, base):
    """Some spelling of some path; base is the directory a relative one starts at."""
    pool = files + dirs + [l["at"] for l in links]
    p = rng.choice(pool)
    if links and rng.random() < 0.3:
        l = rng.choice(links)
        p = l["at"] + rng.choice([[], [rng.choice(FILES)], [rng.choice(NAMES)]])
    if rng.random() < 0.1:
        p = p + [rng.choice(FILES)]
    if rng.random() < 0.15 and p:
        p = p[:-1] + [p[-1] + rng.choice(["x", ".cc", "2"])]
    if rng.random() < 0.2 and p:
        k = rng.randrange(len(p) + 1)
        p = p[:k] + ["."] + p[k:]
    if rng.random() < 0.15 and dirs:
        d = rng.choice(dirs)
        if d:
            p = d[:1] + [".."] + p
    if rng.random() < 0.5:
        return p, True
    if rng.random() < 0.5 and p[:len(base)] == base and p[len(base):]:
        return p[len(base):], False
    return [".."] * len(base) + p, False


def quote_words(rng, words):
    """Spell words as a shell command line in assorted ways."""
    out = []
    for w in words:
        style = rng.randrange(4)
        if style == 0 or w == "":
            q = shlex.quote(w)
        elif style == 1:
            q = '"' + w.replace("\\", "\\\\").replace('"', '\\"') + '"'
        elif style == 2:
            q = "".join(c if c.isalnum() or c in "-_=./:,+" else "\\" + c for c in w if c != "\n")
            if "\n" in w:
                q = shlex.quote(w)
        else:
            k = rng.randrange(len(w) + 1)
            a, b = w[:k], w[k:]
            q = (shlex.quote(a) if a else "") + ('"' + b.replace("\\", "\\\\").replace('"', '\\"') + '"' if b else "")
        out.append(q)
    sep = rng.choice([" ", "  ", "\t", " \t "])
    return rng.choice(["", "", " "]) + sep.join(out) + rng.choice(["", "", " "])


def rand_select(rng):
    dirs, files, links = rand_fs(rng)
    cwd = rng.choice(dirs)
    db = []
    for i in range(1, rng.randint(1, 7) + 1):
        d = rng.choice(dirs)
        f, ab = rand_ref(rng, dirs, files, links, d)
        words = [rng.choice(COMPILERS)] if rng.random() < 0.7 else ["ccache", rng.choice(COMPILERS)]
        if rng.random() < 0.05:
            words = ["/usr/bin/ccache-wrapper"]
        args = [rng.choice(ARGPOOL) for _ in range(rng.randint(0, 7))]
        args.insert(rng.randrange(len(args) + 1), "-DID=%d" % i)
        words += args
        form = rng.choice(["arguments", "command"])
        db.append(dict(dir=d, file=f, abs=ab, form=form,
                       args=words, chars=list(quote_words(rng, words)) if form == "command" else []))
    sel = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        if rng.random() < 0.5 and db:
            e = rng.choice(db)
            full = (e["file"] if e["abs"] else e["dir"] + e["file"])
            k = rng.randint(max(0, len(full) - 2), len(full))
            sel.append(dict(path=full[:k], abs=True))
        else:
            p, ab = rand_ref(rng, dirs, files, links, cwd)
            sel.append(dict(path=p, abs=ab))
    for s in sel:
        if not s["path"] and not s["abs"]:
            s["path"] = ["."]
    extra = [rng.choice(["-Xiwyu", "--verbose=3", "-w", "--", "-DEX=a b", "-p", "--jobs", "x.cc"])
             for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    nodes = dirs + files
    return dict(links=links, nodes=nodes, db=db, select=sel, cwd=cwd, extra=extra,
                _dirs=dirs, _files=files, jobs=rng.choice([1, 1, 3]),
                dbarg=rng.choice(["dir", "file"]), slash=rng.random() < 0.2)


def play_select(sc, fake):
    d = scratch()
    root = os.path.join(d, "r")
    j = lambda p: os.path.join(root, *p) if p else root
    for p in sc["_dirs"]:
        os.makedirs(j(p), exist_ok=True)
    for p in sc["_files"]:
        open(j(p), "w").close()
    for l in sc["links"]:
        os.symlink(j(l["to"]) if l["abs"] else "/".join(l["to"]), j(l["at"]))
    db = []
    for e in sc["db"]:
        ent = dict(directory=j(e["dir"]), file=(j(e["file"]) if e["abs"] else "/".join(e["file"])))
        if e["form"] == "arguments":
            ent["arguments"] = e["args"]
        else:
            ent["command"] = "".join(e["chars"])
        db.append(ent)
    dbdir = os.path.join(d, "db")
    os.makedirs(dbdir)
    dbfile = os.path.join(dbdir, "compile_commands.json")
    with open(dbfile, "w") as f:
        json.dump(db, f)
    args = ["-p", dbdir if sc["dbarg"] == "dir" else dbfile, "-j", str(sc["jobs"])]
    for s in sc["select"]:
        p = j(s["path"]) if s["abs"] else "/".join(s["path"])
        args.append(p + ("/" if sc["slash"] and os.path.isdir(os.path.join(j(sc["cwd"]), p)) else ""))
    if sc["extra"]:
        args += ["--"] + sc["extra"]
    fd = os.path.join(d, "fake")
    os.makedirs(fd)
    try:
        r = subprocess.run([PY, TOOL] + args, cwd=j(sc["cwd"]), env=tool_env(fake, fd),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return dict(fail="timeout"), args
    runs = []
    for f in sorted(os.listdir(fd)):
        if f.startswith("argv."):
            lines = [bytes.fromhex(x).decode() for x in open(os.path.join(fd, f)).read().split("\n")[:-1]]
            cwd = lines[0]
            cwd = [c for c in cwd[len(os.path.realpath(root)):].split("/") if c] if cwd.startswith(os.path.realpath(root)) else [cwd]
            i = f.split(".")[1]
            runs.append(dict(entry=int(i) if i.isdigit() else -1, argv=lines[1:], cwd=cwd))
    shutil.rmtree(d, ignore_errors=True)
    fail = "" if r.returncode == 0 else "exit %d: %s" % (r.returncode, r.stderr.decode("utf-8", "replace")[-500:])
    return dict(fail=fail, runs=runs), args


SELECT_CFG = """INIT Init
NEXT Next
INVARIANTS Exact OwnFlags Emit
CHECK_DEADLOCK FALSE
"""


def cmp_select(sc, exp, got):
    if got["fail"]:
        return "the script failed: " + got["fail"]
    key = lambda r: json.dumps([r["entry"], r["argv"], r["cwd"]])
    e, g = sorted(map(key, exp)), sorted(map(key, got["runs"]))
    if len(set(e)) != len(e):
        # Overlapping selections: at least once each, at most once per path.
        bad = set(e) != set(g) or any(g.count(x) > e.count(x) for x in set(g))
    else:
        bad = e != g
    if not bad:
        return None
    miss = [x for x in e if x not in g]
    more = [x for x in g if x not in e]
    return "expected but not run: %s; run but not expected: %s; counts %d/%d" % (miss[:2], more[:2], len(e), len(g))


def t03(ck):
    fake = build_fake()
    scs = [rand_select(ck.rng) for _ in range(6000 if THOROUGH else 1100)]
    recs = tlc_batch(ck, "ToolSelect", SELECT_CFG,
                     [{k: v for k, v in s.items() if not k.startswith("_")} for s in scs])
    exp = {r["id"]: r["runs"] for r in recs}
    if len(exp) != len(scs):
        raise CheckError("specification did not finish %d scenarios" % (len(scs) - len(exp)))
    got = pmap(lambda s: play_select(s, fake), scs)
    for k, (g, args) in enumerate(got):
        ck.evaluations += 1
        ck.traces += 1
        e = exp[k + 1]
        if 0 < len(e) and scs[k]["select"]:
            ck.nontrivial(scs[k])
        ck.count("selected %d of %d" % (min(len(e), 9), len(scs[k]["db"])))
        why = cmp_select(scs[k], e, g)
        if why:
            g2, _ = play_select(scs[k], fake)
            if cmp_select(scs[k], e, g2):
                ck.violation("args %s: %s" % (args, why), dict(scenario=scs[k], expected=e, got=g))
        else:
            ck.sample(dict(args=args[1:], db=[dict(file=x["file"], dir=x["dir"]) for x in scs[k]["db"]], runs=e), 2)
    ck.rule = "random trees with links, databases and selections; non-trivial: a selection that picks something"
    ck.assumptions = ["the stand-in analyser's argv and cwd are those the analyser would get"]


# --------------------------------------------------------------------------
# T04: clang output formats

def rand_clang(rng):
    files = ["a.cc", "dir/b.h", "/abs/p q.cpp", "x should add.h", "-w.cc"]
    lines = []

    def L(k, f="", t="", c="", a=0, b=0):
        lines.append(dict(k=k, f=f, t=t, c=c, a=a, b=b))

    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.choice([0, 0, 1, 3])):
            L("other", t=rng.choice(["x.cc:3:4: warning: unused [-W]", "note: in file", "  int x;", "      ^",
                                     "- dash", "#include <a>  // lines 3-4", "class A;", "In file included from x.h:1:",
                                     "warning: ab // for cd", "(almost has correct)", "1 warning generated."]))
        f = rng.choice(files)
        if rng.random() < 0.25:
            L("blank")
            L("correct", f)
            if rng.random() < 0.3:
                L("end")
            continue
        L("blank")
        L("add_header", f)
        for _ in range(rng.choice([0, 1, 2, 3])):
            t = rng.choice(['#include <vector>', '#include "q.h"', "class A;", "namespace n { class B; }",
                            "template <typename T> struct S;", '#include "a//b.h"', "#include <x>"])
            c = rng.choice(["", "for A", "for A, B<int>, f()", "for x // y"])
            L("add", t=t, c=c)
        L("blank")
        L("remove_header", f)
        for _ in range(rng.choice([0, 1, 2, 3])):
            a = rng.choice([1, 7, 12, 100])
            L("remove", t=rng.choice(['#include <list>', '#include "z.h"', "class C;", "namespace n { class D; }"]),
              a=a, b=a + rng.choice([0, 0, 3]))
        L("blank")
        L("list_header", f)
        for _ in range(rng.choice([0, 1, 4])):
            L("listed", t=rng.choice(['#include <vector>  // for vector', "class A;", '#include "q.h"', "- x",
                                      "#include <y>  // lines 3-5"]))
        L("end")
        if rng.random() < 0.5:
            L("blank")
    return dict(lines=lines)


def render_line(x):
    k = x["k"]
    return {"correct": "(%s has correct #includes/fwd-decls)" % x["f"],
            "add_header": "%s should add these lines:" % x["f"],
            "remove_header": "%s should remove these lines:" % x["f"],
            "list_header": "The full include-list for %s:" % x["f"],
            "end": "---", "blank": "",
            "add": x["t"] + (("      // " if len(x["t"]) % 2 else "  // ") + x["c"] if x["c"] else ""),
            "remove": "- %s  // lines %d-%d" % (x["t"], x["a"], x["b"]),
            "listed": x["t"], "other": x["t"]}[k]


def render_diag(d, sev):
    if d["d"] == "correct":
        return "%s:1:1: note: #includes/fwd-decls are correct" % d["f"]
    if d["d"] == "add":
        return "%s:1:1: %s: add '%s'%s" % (d["f"], sev, d["t"], " (%s)" % d["c"] if d["c"] else "")
    if d["d"] == "remove":
        return "%s:%d:1: %s: superfluous '%s'" % (d["f"], d["line"], sev, d["t"])
    return d["t"]


def play_clang(sc, fake):
    d = scratch()
    text = "".join(render_line(x) + "\n" for x in sc["lines"])
    plan = sc.get("plan") or [(1, text)]
    with open(os.path.join(d, "compile_commands.json"), "w") as f:
        json.dump([dict(directory=d, file="f.cc", arguments=["g++", "-DID=1"])], f)
    with open(os.path.join(d, "plan.1"), "wb") as f:
        for fd, data in plan:
            b = data.encode()
            f.write(struct.pack("<BI", fd, len(b)) + b)
    res = {}
    for fmt in ("clang", "clang-warning"):
        r = subprocess.run([PY, TOOL, "-p", d, "-o", fmt], cwd=d, env=tool_env(fake, d),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        res[fmt] = (r.returncode, [l for l in r.stdout.decode("utf-8", "replace").split("\n") if l.strip()],
                    r.stderr.decode("utf-8", "replace")[-500:])
    shutil.rmtree(d, ignore_errors=True)
    return res


def t04(ck):
    fake = build_fake()
    scs = [rand_clang(ck.rng) for _ in range(4000 if THOROUGH else 700)]
    recs = tlc_batch(ck, "ToolClang", """INIT Init
NEXT Next
INVARIANTS OnePerLine RightFile Emit
CHECK_DEADLOCK FALSE
""", scs)
    exp = {r["id"]: r["out"] for r in recs}
    if len(exp) != len(scs):
        raise CheckError("specification stuck on %d scenarios" % (len(scs) - len(exp)))
    got = pmap(lambda s: play_clang(s, fake), scs)

    def diff(k, g):
        for fmt, sev in (("clang", "error"), ("clang-warning", "warning")):
            e = [render_diag(x, sev) for x in exp[k + 1] if render_diag(x, sev).strip()]
            rc, lines, err = g[fmt]
            if rc != 0 or lines != e:
                return "-o %s (exit %d %s): expected %s, got %s" % (fmt, rc, err, e, lines)
        return None

    for k, g in enumerate(got):
        ck.evaluations += 2
        ck.traces += 1
        if any(x["d"] in ("add", "remove") for x in exp[k + 1]):
            ck.nontrivial(scs[k])
        why = diff(k, g)
        if why and diff(k, play_clang(scs[k], fake)):
            ck.violation(why, dict(scenario=scs[k], expected=exp[k + 1], got=g))
        elif not why:
            ck.sample(dict(lines=[render_line(x) for x in scs[k]["lines"]], out=g["clang"][1]), 2)
    ck.rule = "random report sequences; non-trivial: at least one addition or removal"
    ck.assumptions = ["reports have the layout include-what-you-use prints (checked by R01)"]


CHECKS = {
    "T03": t03,
    "T04": t04,
    "T01": sched_body("sched"),
    "T02": sched_body("out"),
}
