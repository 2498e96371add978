"""N01: programs whose files lie in several directories, searched in several
ways and named in several ways."""
import copy
import os

import conform
import gen
import lib
import progs
from conform import count

CHECKS = {}

PLACES = ["", "src", "src/d", "inc", "inc/d", "lib/x", "lib/x/d/e"]
SYSTEM = ["ext", "ext/n", "sys"]
AWAY = "out/o"                                # a working directory without any headers


def spell(rng, d, style):
    """A spelling of the directory d."""
    if style == "abs":
        d = progs.root() + ("/" + d if d else "")
        return rng.choice([d, d, d + "/", d + "/."])
    if style == "up":
        d = os.path.relpath(d or ".", AWAY)
        return rng.choice([d, d, d, d + "/", "./" + d, d.replace("/", "//"), d + "/."])
    if not d:
        return rng.choice([".", "./", "./."])
    up = "/".join([d, ".."] + [os.path.basename(d)])
    return rng.choice([d, d, d + "/", "./" + d, d.replace("/", "//"), up, d + "/."])


def layout(rng):
    style = rng.choice(["rel", "rel", "abs", "up"])
    dirs = []
    for d in PLACES:
        if rng.random() < (.4 if d else .6):
            dirs.append((rng.choice(["-I", "-I", "-I", "-iquote"]), spell(rng, d, style), d))
    sys = rng.sample(SYSTEM, rng.choice([0, 1, 1, 2]))
    dirs += [("-isystem", spell(rng, d, style), d) for d in sys]
    rng.shuffle(dirs)
    return progs.Layout(dirs, None, AWAY if style == "up" else ""), style, sys


def names(L, f, t, files):
    """The ways in which f can include t."""
    at = {x.at for x in files}
    res = []
    for d in [("", "", os.path.dirname(f.at))] * (not t.sys) + L.dirs:
        if d[0] == "-isystem" and not t.sys or t.sys and d[0] != "-isystem":
            continue
        rel = os.path.relpath(t.at, d[2] or ".")
        for n in ('"%s"' % rel, "<%s>" % rel):
            if (n[0] == "<") != t.sys and d[0] != "-I":
                continue
            if n[0] == "<" and d[0] == "":
                continue
            hit = next((x for x in L.resolve(f, n) if x in at), None)
            if hit == t.at and n not in res:
                res.append(n)
    return res


def place(rng, p):
    """Lays out the files of p; None if some header hides another."""
    L, style, sys = layout(rng)
    back = {f.q: f for f in p.files}
    some = rng.sample(PLACES, rng.choice([1, 2, 3]))
    if not sys and any(f.sys for f in p.files):
        return None
    same = rng.random() < .3
    for i, f in enumerate(p.files):
        base = os.path.basename(f.name)
        issys = f.sys
        if same and base not in ("m.cc", "m.h") and rng.random() < .4:
            base = "x.h"
        d = rng.choice(sys if issys else some)
        if base == "m.h" and rng.random() < .5:
            d = os.path.dirname(p.main.at)
        f.at = os.path.normpath(os.path.join(d, base))
        f.sys = issys
        f.layout = L
        f.name = progs.root() + "/" + f.at if style == "abs" else os.path.relpath(f.at, L.cwd or ".")
    at = [f.at for f in p.files]
    if len(set(at)) < len(at):
        return None
    # what lies in a searched directory of the system is a system header
    for f in p.files:
        if not f.sys and any(d[0] == "-isystem" and f.at.startswith(d[2] + "/") for d in L.dirs):
            return None
        if len({d[2] for d in L.dirs}) < len(L.dirs):
            return None
    for f in p.files:
        for t in p.files:
            n = L.name_from(f, t)
            hit = next((x for x in L.resolve(f, n) if x in at), None)
            if hit != t.at and not (t.sys is False and f.sys):
                return None
    # one name for each header in each file
    for f in p.files:
        chosen = {}
        for ln in f.lines:
            if ln["k"] == "inc":
                t = ln["t"]
                if t not in chosen:
                    c = names(L, f, t, p.files)
                    if not c:
                        return None
                    usual = L.name_from(f, t)
                    n = usual if usual in c and rng.random() < .5 else rng.choice(c)
                    if n[0] == '"' and rng.random() < .2:
                        n = vary(rng, n)
                    chosen[t] = n
                ln["n"] = chosen[t]
            elif ln["k"] == "prag" and ln["op"] in ("private_include", "friend", "no_include"):
                if ln["op"] == "friend":
                    x = back.get(ln["x"][0])
                    if not x:
                        return None
                    n = rng.choice([L.name_from(x, x), L.quoted(x.at)])
                    ln["x"] = called(p, n)
                    ln["text"] = "friend " + n
                else:
                    x = back.get(ln["a"])
                    if x:
                        new = L.quoted(x.at) if ln["op"] == "private_include" else L.name_from(f, x)
                        ln["text"] = ln["text"].replace(ln["a"], new)
                        ln["a"] = new
    main = p.main.name
    L.main = main if style == "abs" else rng.choice([main, main, "./" + main, vary(rng, '"%s"' % main)[1:-1]])
    p.layout = L
    if rng.random() < .3:
        p.globs = ["*"]
    return p


def called(p, n):
    """The files with that name, their own name if they lie outside of all searched directories."""
    return [y.q for y in p.files if n in (y.q, '"' + os.path.basename(y.at) + '"' if y.q.startswith('"/') else y.q)]


def placed(rng, p, share=.3, inside=False):
    """The program, perhaps with its files in other places under other names
    (none of which has only its whole path for a name)."""
    if rng.random() > share or p.docs or p.pfx:
        return p
    for _ in range(6):
        q = copy.deepcopy(p)
        if place(rng, q) and not (inside and any(f.q.startswith('"/') for f in q.files)):
            return q
    return p


def vary(rng, n):
    inner = n[1:-1]
    d, b = os.path.split(inner)
    return '"%s"' % rng.choice(["./" + inner, os.path.join(d, ".", b), inner.replace("/", "//") if not inner.startswith("/") else inner])


def program(rng):
    while True:
        p = gen.base(rng, nh=(2, 7), marks=.3, export=.4, keep=.1, priv=.15, also=.5, fwd=.4, pragmas=.1, sysh=rng.choice([0, .3]),
                     internal=rng.choice([0, 0, .2]), ns=rng.choice([0, .2]))
        if place(rng, p):
            return p


def n01(ck):
    progs_ = [program(ck.rng) for _ in range(count(1500, 20000))]

    def interesting(p, rec):
        other = [x["n"] for fr in rec["files"] for x in fr["lines"] if x["k"] == "inc"
                 and (not x["pres"] or x["n"] != p.files[x.get("t", 1) - 1].q)]
        return (tuple(sorted(other)), tuple(d[0] + d[2] for d in p.layout.dirs)) if other else None
    conform.conform(ck, progs_, interesting=interesting)
    ck.rule = "random programs in random directories; non-trivial: distinct names that are advised in distinct layouts"
    ck.assumptions = ["no header hides another one under its usual name", "each file has one name for a header",
                      "search directories are all relative or all absolute",
                      "the working directory holds all files or none of them", "no symbolic links"]


CHECKS["N01"] = n01
