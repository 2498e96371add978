"""E01: analysing a program and applying the advice, in turns.  The programs
that come about are recorded and played against IwyuRounds."""
import copy
import os
import re
import shutil
import subprocess
import sys

import conform
import decide
import gen
import lib
import naming
import pieces
import progs
from conform import count
from lib import CheckError

CHECKS = {}
ROUNDS = 5

CFG = """INIT Init
NEXT TNext
CONSTANT Program <- ProgramOf
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


class Unreadable(Exception):
    """A line of a fixed file that nothing accounts for."""


REASON = re.compile(r"  +// for [^/]*$")
FORWARD = re.compile(r"^((?:(?:inline )?namespace (?:[\w:]+ )?\{ )*)((?:template <|struct|class|union|enum).*?;)((?: \})*)(.*)$")
INCLUDE = re.compile(r'^#include (<[^>]*>|"[^"]*")$')
OPEN = re.compile(r"^(?:inline )?namespace (?:([\w:]+) )?\{$")
CLOSE = re.compile(r"^\}( *// (inline )?namespace( [\w:]+)?)?$")


def plain(t):
    return re.sub(r"(?m)[ \t]+$", "", t)


def reread(prog, texts):
    """The program after its files have been edited."""
    new = copy.copy(prog)
    new.files = []
    twins = {}
    for f in prog.files:
        g = copy.copy(f)
        twins[id(f)] = g
        new.files.append(g)
    for f, g in zip(prog.files, new.files):
        g.lines, g.nums = reread_file(prog, f, texts[f.at])
    for g in new.files:
        for i, L in enumerate(g.lines):
            if "t" in L:
                g.lines[i] = dict(L, t=twins.get(id(L["t"]), L["t"]))
    new.main = twins[id(prog.main)]
    new.pfx = [twins[id(x)] for x in prog.pfx]
    return new


def reread_file(prog, f, text):
    known = {}
    for i, L in enumerate(f.lines):
        known.setdefault(L["tx"], L)
    forward = {}              # lines by what they declare
    for L in f.lines:
        m = FORWARD.match(L["tx"]) if L["k"] == "fwd" else None
        if m:
            forward.setdefault(("::".join(spaces(m)), m.group(2), m.group(4)), L)
    first = {}
    for t in known:
        first.setdefault(t.split("\n")[0], []).append(t)
    lines, nums = [], []
    phys = plain(text).split("\n")
    if phys[-1] == "":
        phys.pop()
    i = 0
    stack = []            # open namespaces

    def add(L, a, b):
        n = dict(L)
        lines.append(n)
        nums.append((a, b))
    while i < len(phys):
        t = phys[i]
        if t == "":
            lines.append(dict(k="nop", text="", tx=""))
            nums.append((i + 1, i + 1))
            i += 1
            continue
        found = None
        for c in sorted(first.get(t, []) + first.get(REASON.sub("", t), []), key=len, reverse=True):
            h = c.count("\n") + 1
            if "\n".join([REASON.sub("", x) for x in phys[i:i + h]]) in (c, REASON.sub("", c)):
                found = (c, h)
                break
        if found and not stack:
            add(known[found[0]], i + 1, i + found[1])
            i += found[1]
            continue
        t = REASON.sub("", t)
        m = INCLUDE.match(t)
        if m:
            to = included(prog, f, m.group(1))
            if not to:
                raise Unreadable(t)
            add(dict(k="inc", t=to, n=m.group(1), tx=t), i + 1, i + 1)
            i += 1
            continue
        if OPEN.match(t):
            stack.append(OPEN.match(t).group(1) or "")
            i += 1
            continue
        if CLOSE.match(t) and stack:
            stack.pop()
            i += 1
            continue
        m = FORWARD.match(t)
        if m:
            ns = "::".join(stack + spaces(m))
            old = forward.get((ns, m.group(2), m.group(4)))
            found = declared(prog, ns, m.group(2))
            if old:
                add(old, i + 1, i + 1)
            elif found:
                add(dict(k="fwd", e=found[0], alt=found[1], tx=prog.fwdtext(*found) + m.group(4)), i + 1, i + 1)
            else:
                raise Unreadable(t)
            i += 1
            continue
        raise Unreadable(t)
    if stack:
        raise Unreadable("open namespace " + stack[-1])
    return lines, nums


def included(prog, f, n):
    """The file that a directive of f means."""
    if not prog.layout:
        return next((x for x in prog.files if x.q == n), None)
    at = {x.at: x for x in prog.files}
    return next((at[p] for p in prog.layout.resolve(f, n) if p in at), None)


def spaces(m):
    """The namespaces that a match of FORWARD opens."""
    return [x.strip() for x in re.findall(r"namespace( [\w:]+)? \{", m.group(1))]


def declared(prog, ns, text):
    """The entity, and the form of its declaration."""
    for e in prog.entities():
        k = prog.kind(e)
        if "::".join(n for n, _ in k.ns) == ns:
            for alt in (1, 2) if k.other else (1,):
                t = k.texts()[(alt - 1) * (2 if k.ns else 1)]
                if text == t[sum(len("namespace { ") + len(n and n + " ") for n, _ in k.ns):len(t) - 2 * len(k.ns)]:
                    return e, alt
    return None


def settle(prog):
    """Gives lines the texts by which they are known from now on."""
    for f in prog.files:
        f.nums = f.numbers()
        for i, L in enumerate(f.lines):
            L["tx"] = plain(prog.line_text(f, i))


def play(binary, prog, fixer, seed):
    """The recorded rounds: list of (program, output, status), and a remark."""
    settle(prog)
    d = lib.scratch()
    here = (lambda t: t.replace(progs.root(), d)) if prog.layout else (lambda t: t)
    away = (lambda t: t.replace(d, progs.root())) if prog.layout else (lambda t: t)
    lib.write_files(d, {n: here(t) for n, t in prog.texts().items()})
    for _, _, p in prog.layout.dirs if prog.layout else ():
        os.makedirs(os.path.join(d, p), exist_ok=True)
    cwd = progs.workdir(prog, d)
    args, iwyu = [[here(x) for x in v] for v in progs.arguments(prog)]

    def analyse():
        out, rc = progs.run_iwyu(binary, cwd, here(prog.layout.main if prog.layout else prog.main.name), args=args, iwyu=iwyu,
                                 cxx=("-std=" + prog.std,) + (() if prog.layout else ("-I.",)))
        return out, rc
    rounds, remark = [], ""
    for _ in range(ROUNDS):
        out, rc = analyse()
        rounds.append((prog, away(out), rc))
        again = analyse()
        if again != (out, rc):
            remark = "the same input gave another report: " + str(again)
            break
        if " error: " in out or rc < 0:
            break
        r = subprocess.run([sys.executable, os.path.join(lib.REPO, "fix_includes.py")] + fixer, input=out, cwd=cwd, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or "ERROR" in r.stdout:
            remark = "the repair failed: " + r.stdout[-400:]
            break
        texts = {}
        for f in prog.files:
            with open(os.path.join(d, f.at)) as h:
                texts[f.at] = away(h.read())
        if texts == {n: t for n, t in current(prog).items()}:
            break
        try:
            new = reread(prog, texts)
        except Unreadable as e:
            remark = "an unexpected line appeared: %s\n%s" % (e, texts)
            break
        new.now = texts
        prog = new
    shutil.rmtree(d, ignore_errors=True)
    return rounds, remark


def current(prog):
    if getattr(prog, "now", None):
        return prog.now
    return {f.at: prog.text(f) for f in prog.files}


def story(rounds):
    res = []
    for k, (p, out, rc) in enumerate(rounds):
        t = current(p)
        res.append("===== round %d\n%s\n----- report\n%s" % (k + 1, "\n".join("--- %s\n%s" % (n, t[n].rstrip("\n")) for n in t), out.strip()))
    return "\n".join(res)


def judge(ck, played):
    scen = []
    for k, (rounds, remark, safe, order) in enumerate(played):
        scen.append(dict(id=k + 1, safe=safe, order=order, progs=[with_texts(p) for p, _, _ in rounds]))
    recs = lib.tlc_batch(ck, "IwyuRounds", CFG % "LawsOk", scen)
    by = {}
    for r in recs:
        by.setdefault(r["id"], []).append(r)
    for k, (rounds, remark, safe, order) in enumerate(played):
        ck.evaluations += 1
        mine = sorted(by.get(k + 1, []), key=lambda r: r["round"])
        if mine and mine[0]["bad"]:
            if " error: " not in rounds[0][1]:
                raise CheckError("a program compiles that must not:\n" + story(rounds))
            ck.count("does not compile from the start")
            continue
        bad = []
        for r, (p, out, rc) in zip(mine, rounds):
            d = conform.differences(p, r, out, rc)
            if d:
                bad.append("round %d: %s" % (r["round"], "; ".join(d)))
            for s in r["steps"]:
                bad.append("round %d: %s" % (r["round"], s))
        if not bad and len(mine) != len(rounds):
            raise CheckError("the specification judged %d of %d rounds:\n%s" % (len(mine), len(rounds), story(rounds)))
        if remark:
            bad.append(remark)
        if bad:
            ck.violation("%s\n%s" % ("\n".join(bad)[:1500], story(rounds)), dict(rounds=story(rounds), differences=bad))
            continue
        ck.traces += 1
        ck.count("rounds: %d" % len(rounds))
        if len(rounds) > 1:
            ck.nontrivial([current(p) for p, _, _ in rounds])
            ck.sample(story(rounds)[:2500], 2)


def with_texts(p):
    s = p.spec()
    for f, g in zip(p.files, s["files"]):
        for L, r in zip(f.lines, g["lines"]):
            r["tx"] = L["tx"]
    return s


def truthful(rng, p):
    """Private headers that are included by their public header alone, which
    includes nothing else (otherwise cycles of includes may be advised)."""
    private = set()
    for f in p.files[1:]:
        by = [(g, L) for g in p.files for L in g.lines if L["k"] == "inc" and L["t"] is f]
        if len(by) == 1 and by[0][0] is not p.main and by[0][0] not in private and not f.sys:
            g, L = by[0]
            if sum(M["k"] == "inc" for M in g.lines) == 1 and not any(M["k"] == "inc" and M["t"] in private for M in f.lines):
                L["m"] = "export"
                private.add(f)
                f.lines.insert(1, dict(k="prag", op="private_include", a=g.q, text="private, include " + g.q))


def reached(p):
    """The files that are read."""
    todo, res = [p.main], []
    while todo:
        f = todo.pop()
        if f not in res:
            res.append(f)
            todo += [L["t"] for L in f.lines if L["k"] == "inc"]
    return res


OPTS = dict(marks=.25, priv=0, fwd=.4, pragmas=0, cyc=0, dup=.08, keepglob=.05)


def program(rng, deal):
    r = rng.random()
    if r < .25:
        p = decide.use_program(rng, deal, False)
        # a class that no header defines, but is meant to be provided, is expected of whatever declares it
        known = {L["e"] for f in reached(p)[1:] for L in f.lines if L["k"] == "def"}
        for f in p.files:
            f.lines = [L for L in f.lines if L["k"] != "code" or L["c"] in ("extern", "sfield") or pieces.names(L["y"]) <= known
                       or L["c"] == "expr" and L["y"]["k"] not in ("ent", "cref")]
        p.fmt["ns17"] = rng.random() < .3
    elif r < .5:
        p = decide.of_kinds(rng, gen.base(rng, nh=(2, 6), also=0, macros=False, ns=.6, usedens=1.5, **OPTS))
        p.opts["nofwd"] = False
        read = reached(p)
        lost = any(i for e, k in p.kinds.items() for _, i in k.ns if not any(L["k"] == "def" and L["e"] == e for f in read for L in f.lines))
        for k in p.kinds.values():
            k.block = ""
            if lost:            # nothing in an inline namespace is declared elsewhere
                k.ns = [(n, False) for n, _ in k.ns]
            if len(k.ns) > 1:   # the fixer leaves out unnamed namespaces in others, as a test asks for
                k.ns = [x for x in k.ns if x[0]]
            if k.pre:
                k.pre, k.clause, k.usrc, k.under, k.params, k.args, k.other = "", "", "", "", [], "", None
                if k.enum:
                    k.key = "enum class"
        for f in p.files:
            for L in f.lines:
                for x in ("block", "h"):
                    L.pop(x, None)
                if L.get("alt") and not p.kind(L["e"]).other:
                    del L["alt"]
    else:
        p = gen.base(rng, nh=(2, 7), also=0, ranges=rng.choice([0, .3]), macros=rng.random() < .5, ns=rng.choice([0, 0, .4]), tall=.15,
                     sysh=rng.choice([0, .3]), subdir=.3, **OPTS)
    for f in p.files:
        for i, L in list(enumerate(f.lines))[::-1]:
            L.setdefault("u", "%d_%d" % (p.idx(f), i))
            if L["k"] == "mtest":
                f.lines.insert(i + 1, dict(k="nop", text="inline int v%s() { return 0; }" % L["u"]))
            if L.get("h") and "::" in L["e"]:
                del L["h"]
            if L["k"] in ("full", "ptr", "fn", "muse") and rng.random() < .1:
                f.lines.insert(i, dict(k="nop", text=rng.choice(["// What follows, %s." % L["u"], ""])))
    own = rng.random() < .3
    if own:
        truthful(rng, p)
    if rng.random() < .6:
        for f in p.files[1:]:
            f.also = not f.sys
    # a name that a private header states is the one it has where everything lies in one directory
    return p if own else naming.placed(rng, p, .4, inside=True)


def e01(ck):
    rng = ck.rng
    binary = lib.ensure_iwyu()
    jobs = []
    deal = decide.dealer(ck, 2)
    for _ in range(count(500, 6000)):
        p = program(rng, deal)
        safe, order = rng.random() < .25, rng.random() < .2
        fixer = [] if safe and rng.random() < .5 else ["--safe_headers" if safe else "--nosafe_headers"]
        fixer += rng.choice([[], ["--comments"], ["--nocomments"]])
        fixer += ["--noreorder"] if order else rng.choice([[], ["--reorder"]])
        fixer += rng.choice([[], [], ["-m"], ["--noblank_lines"], ["--quoted_includes_first"]])
        jobs.append((p, fixer, safe, order))
    for a in range(0, len(jobs), 1000):
        part = jobs[a:a + 1000]
        played = lib.pmap(lambda j: play(binary, j[0], j[1], 0), part)
        judge(ck, [(r, m, j[2], j[3]) for (r, m), j in zip(played, part)])
    ck.rule = "random programs analysed and repaired until nothing changes; non-trivial: distinct histories with at least one repair"
    ck.assumptions = ["all headers of the project are reported, or only the main file and its own",
                      "marks tell the truth: what is said to be exported is included"]


CHECKS["E01"] = e01
