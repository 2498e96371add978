"""M01, M02: mapping rules and mapping files."""
import os

import gen
import lib
import maps
import progs
from conform import conform, count
from lib import THOROUGH
from maps import ANY, alt, cat, grp, oneof, star

CHECKS = {}
BIG = dict(nh=(4, 8)) if THOROUGH else dict(nh=(2, 6))


def rx_rule(rng, dialect, av, bv):
    """A rule for an expression that matches in one way."""
    notslash = star(oneof("/", True))
    pub = rng.choice(['"pub1.h"', '"pub2.h"', "<sys1>", '"a.h"', '"s/b.h"', '"c.h"'])
    x, to = rng.choice([
        (cat('"', star(ANY), '"'), [pub]),
        (cat('"', grp(1, star(ANY)), '"'), ["<", 1, ">"]),
        (cat('"s/', grp(1, star(ANY)), '"'), ['"', 1, '"']),
        (cat('"', grp(1, notslash), "/", grp(2, notslash), '"'), ['"', 2, '"']),
        (cat('"', grp(1, notslash), "/", grp(2, notslash), '"'), ["<", 2, "-", 1, ">"]),
        (cat('"', grp(1, oneof("abc")), '.h"'), ['"s/', 1, '.h"']),
        (cat('"', grp(1, oneof("cde", True)), '.h"'), ['"t/', 1, '.h"']),
        (alt('"a.h"', '"b.h"'), [pub]),
        (alt('"a', cat('"', star(ANY), 'b.h"')), [pub]),
        (alt(cat('"', star(ANY), "c"), '"d.h"'), [pub]),
        (alt("a", cat('"', star(ANY), '.h"'), "h"), [pub]),
        (cat('"', grp(1, alt("a", "b", "m")), '.h"'), ["<x/", 1, ">"]),
        (cat("<", star(ANY), ">"), [pub]),
        (cat("<", grp(1, star(oneof(">", True))), ">"), ['"', 1, '"']),
        (cat('"m.h"'), [pub]),
        (cat('"', ANY, ".", ANY, '"'), [pub]),
        (cat('"', ANY, ANY, '"'), [pub]),
        (cat(ANY, "b", ANY, "h", ANY), [pub]),
    ])
    return maps.pattern(x, av, to, bv, dialect)


def rules(rng, p, n):
    names = [f.q for f in p.files if f is not p.main] + ['"pub1.h"', '"pub2.h"', "<sys1>"]
    names = list(dict.fromkeys(names))
    ents = [e for e in p.entities() if e != "none"]
    vis = {}

    def v(x, often="private"):
        other = "public" if often == "private" else "private"
        c = vis.setdefault(x, rng.choice([often] * 3 + [other]))
        return c if rng.random() < .97 else other
    res = []
    for _ in range(n):
        a, b = rng.choice(names), rng.choice(names)
        r = rng.random()
        if r < .2 and ents:
            res.append(maps.symbol(rng.choice(ents), b, v(b, "public")))
        elif r < .5:
            res.append(rx_rule(rng, p.dialect, rng.choice(["private"] * 4 + ["public"]), rng.choice(["public"] * 4 + ["private"])))
        elif r < .6 and len(names) > 3:
            # a chain or a cycle of private headers
            c = rng.sample(names, rng.choice([2, 3, 3]))
            c.append(rng.choice(names + c[:1]))
            for x, y in zip(c, c[1:]):
                if x != y:
                    res.append(maps.include(x, v(x), y, v(y, "private" if y != c[-1] else "public")))
        elif a != b:
            res.append(maps.include(a, v(a), b, v(b, "public")))
    rng.shuffle(res)
    return res


def m01(ck):
    rng = ck.rng
    ps = []
    for _ in range(count(1200, 12000)):
        p = gen.base(rng, usedens=1.7, priv=.15, marks=.15, also=.25, own=.5, subdir=.3, sysh=.1, **BIG)
        p.dialect = rng.choice(["llvm"] * 3 + ["ecmascript"])
        rs = rules(rng, p, rng.choice([1, 2, 3, 4, 6, 8]))
        k = rng.choice([1, 1, 2])
        for i in range(k):
            p.docs.append(maps.doc("m%d.imp" % i, [maps.item(r) for r in rs[i::k]]))
        p.mapargs = [d["name"] for d in p.docs]
        ps.append(p)
    conform(ck, ps)
    ck.rule = "random programs with random rules, expressions and cycles of rules; non-trivial: distinct reports"
    ck.assumptions = ["expressions of the generator match in one way"]


CHECKS["M01"] = m01

BAD = [dict(obj=False, ents=[]),
       maps.item(maps.entry("include", ['"a.h"', "private", '"b.h"'])),
       maps.item(maps.entry("include", ['"a.h"', "private", '"b.h"', "public", "x"])),
       maps.item(maps.entry("include", ['"a.h"', "secret", '"b.h"', "public"])),
       maps.item(maps.entry("include", ['"a.h"', "private", '"b.h"', "Public"])),
       maps.item(maps.entry("include", ["a.h", "private", '"b.h"', "public"])),
       maps.item(maps.entry("include", ['"a.h"', "private", "b.h", "public"])),
       maps.item(maps.entry("include", ['"a.h"', "private", '"', "public"])),
       maps.item(maps.entry("include", ['"a.h"', "private", "<b.h", "public"])),
       maps.item(maps.entry("include", val="x")),
       maps.item(maps.entry("symbol", ["T0", "private", '"b.h"'])),
       maps.item(maps.entry("symbol", ["T0", "private", '"b.h"', ""])),
       maps.item(maps.entry("symbol", ["T0", "private", "b.h", "public"])),
       maps.item(maps.entry("symbol", val="")),
       maps.item(maps.entry("ref", val="")),
       maps.item(maps.entry("ref", ["x.imp"])),
       maps.item(maps.entry("includes", ['"a.h"', "private", '"b.h"', "public"])),
       maps.item(maps.entry("", ['"a.h"', "private", '"b.h"', "public"]))]

JUNK = ["]\n", "%%\n", "\x01\x02\n", "}\n", "\"\n", "`\n", "@\n"]
CUTS = ['  { "symbol": [ "x"', '  {', '  { "symbol', '  { "include": ["\\"a.h\\"", "priv', "", "  { ]", '  { "ref" ']


def m02(ck):
    rng = ck.rng
    ps = []
    for _ in range(count(1200, 12000)):
        p = gen.base(rng, usedens=1.5, priv=.05, marks=.1, also=.2, own=.4, subdir=.3, sysh=.05, **BIG)
        builtin = rng.random() < .35
        if builtin:
            add_builtin(rng, p)
        p.opts["nobuiltin"] = rng.random() < .3
        documents(rng, p)
        ps.append(p)
    conform(ck, ps, interesting=lambda p, r: ([f["text"] for f in r["files"]], r["mapdiags"], p.mapargs))
    shipped(ck)
    ck.rule = "random programs with random graphs of mapping files, some missing, broken or with wrong entries; non-trivial: distinct reports, remarks and files asked for"
    ck.assumptions = ["three of the built-in rules stand for all"]


def shipped(ck):
    """The mapping files that come with the analyser have nothing wrong."""
    files = sorted(f for f in os.listdir(lib.REPO) if f.endswith(".imp"))
    binary = lib.ensure_iwyu()
    d = lib.scratch()
    lib.write_files(d, {"m.cc": "// m.cc\n"})

    def one(f):
        return progs.run_iwyu(binary, d, "m.cc", iwyu=["--mapping_file=" + os.path.join(lib.REPO, f)])
    for f, (out, rc) in zip(files, lib.pmap(one, files)):
        ck.evaluations += 1
        ck.count("shipped")
        if maps.diagnostics(out) or rc != 0 or "correct" not in out:
            ck.violation("the mapping file %s of the analyser itself is not read: %s" % (f, out[:500]),
                         dict(file=f, out=out[:2000]))


def add_builtin(rng, p):
    """System headers that the built-in rules speak of."""
    head = rng.choice(["bits/auxv.h", "bits/stdio_lim.h", "bits/atomic_futex.h", "stdio.h", "time.h", "ios",
                       "istream", "ostream", "iostream", "x.h"])
    f = p.file("sys/" + head)
    e = rng.choice(["B0", "cc_t", "clock_t", "FILE"])
    f.add("def", e=e)
    m = p.main
    heads = [f]
    if rng.random() < .5:
        # another header that may stand for the first
        other = rng.choice(["stdio.h", "cstdio", "ctime", "iostream", "istream", "fstream", "sstream",
                            "future", "termios.h", "sys/types.h"])
        if other != head:
            g = p.file("sys/" + other)
            if rng.random() < .5:
                g.lines.insert(rng.randint(1, len(g.lines)), dict(k="inc", t=f, n=f.q))
                heads = rng.choice([[g], [f, g], [g, f]])
            else:
                heads = rng.choice([[f], [f, g], [g, f]])
                if rng.random() < .5:
                    g.add("def", e="B1")
                    m.add("full", e="B1")
    for h in heads:
        i = next((i for i, L in enumerate(m.lines) if L["k"] == "inc"), 1)
        m.lines.insert(rng.choice([i, i + 1]), dict(k="inc", t=h, n=h.q))
    m.add(rng.choice(["full", "ptr", "full"]), e=e)


def documents(rng, p):
    names = ["a.imp", "b.imp", "d/a.imp", "d/b.imp", "d/e/a.imp", "d/e/c.imp", "f/c.imp"]
    rng.shuffle(names)
    names = names[:rng.randint(1, 5)]
    rs = rules(rng, p, rng.choice([2, 3, 5, 7]))
    for i, n in enumerate(names):
        items = [maps.item(r) for r in rs[i::len(names)]]
        for _ in range(rng.choice([0, 1, 1, 2])):
            items.insert(rng.randint(0, len(items)), maps.item(maps.ref(refname(rng, n, names))))
        if rng.random() < .12:
            items.insert(rng.randint(0, len(items)), rng.choice(BAD))
        if len(items) > 1 and rng.random() < .1 and items[0]["obj"] and items[1]["obj"] \
                and items[0]["ents"][0]["d"] != items[1]["ents"][0]["d"]:
            items[:2] = [maps.item(*(items[0]["ents"] + items[1]["ents"]))]
        end = rng.choice([""] * 15 + ["cut", "noarray", "junk"])
        d = maps.doc(n, items, end)
        if end == "junk":
            d["junk"] = rng.choice(JUNK)
        if end == "cut":
            d["cut"] = rng.choice(CUTS)
        p.docs.append(d)
    k = rng.choice([1, 1, 2])
    p.mapargs = rng.sample(names, min(k, len(names)))
    if rng.random() < .05:
        p.mapargs.append("gone.imp")


def refname(rng, where, names):
    import os
    t = rng.choice(names)
    r = rng.random()
    if r < .45:
        return os.path.relpath(t, os.path.dirname(where) or ".")
    if r < .6:
        return os.path.basename(t)
    if r < .7:
        return "./" + os.path.relpath(t, os.path.dirname(where) or ".")
    if r < .75:
        return "gone.imp"
    return t


CHECKS["M02"] = m02
