"""D01-D06: which headers and forward declarations are advised."""
import json
import subprocess

import gen
import macros
import lib
import pieces
import progs
import spell
from conform import conform, count
from lib import CheckError, THOROUGH

CHECKS = {}
BIG = dict(nh=(4, 8)) if THOROUGH else {}


def d01(ck):
    rng = ck.rng
    n = count(1200, 14000)
    ps = [gen.base(rng, usedens=1.8, marks=.5, export=.5, priv=.3, also=.3, maps=.5, own=.6, fwd=.3, **BIG)
          for _ in range(n)]
    conform(ck, ps)
    ck.rule = "random programs with many uses and several providers per symbol; non-trivial: distinct reports"


CHECKS["D01"] = d01


# -- D02 ------------------------------------------------------------------------

USEGEN = """INIT UInit
NEXT UNext
CONSTANT MaxOps = %d
INVARIANTS ULaws UPrint
CHECK_DEADLOCK FALSE
"""


def pieces_of_code(ck, depth):
    res = lib.tlc("IwyuUseGen", USEGEN % depth)
    ck.states += res.states
    recs = res.records
    recs.sort(key=lambda r: json.dumps(r, sort_keys=True))
    if len(recs) < 1000:
        raise CheckError("only %d pieces of code" % len(recs))
    return recs


TOPS = {"Own": "own", "Hold": "hold", "Void": "empty"}


def use_program(rng, deal, bad):
    """A program with pieces of code in its source and some of its headers."""
    P = progs.Prog()
    P.loose = True
    P.fmt["max"] = 1000
    P.main = P.file("m.cc", hdr=False)
    own = P.file("m.h") if rng.random() < .5 else None
    names = ["%sT%d" % (rng.choice(["", "", "n1::", "n1::n2::"]), i) for i in range(rng.randint(2, 4))]
    op = {e: rng.choice(["auto", ""]) for e in names}
    op[names[0]], op[names[1]] = "auto", ""
    tpls = {}
    for t in TOPS:
        e = rng.choice(["", "", "n1::", "n3::"]) + t
        tpls[t] = e
        op[e] = TOPS[t]
        P.templates.add(e)
    home = {}
    late = rng.choice(names) if rng.random() < .3 else None  # defined in the source itself
    for e in names + list(tpls.values()):
        if e != late:
            f = rng.choice([None, None] + list(home.values())) or P.file("h%d.h" % len(home))
            home[e] = f
    fwds = P.file("fwd.h") if rng.random() < .4 else None
    if fwds:
        for e in rng.sample(list(op), rng.randint(1, 3)):
            fwds.add("fwd", e=e)
    for f in dict.fromkeys(home.values()):
        for e in home:
            if home[e] is f:
                f.add("def", e=e, op=op[e])
    users = [P.main] + ([own] if own else [])
    for i in range(rng.choice([0, 0, 1, 1, 2])):
        users.append(P.file("u%d.h" % i))
    for f in users[1:]:
        f.also = f is own or rng.random() < .7
    see = {}
    for f in reversed(users):
        know, full = set(), set()
        for t in users[users.index(f) + 1:]:
            if f is P.main or rng.random() < .3:
                f.add("inc", t=t, n=t.q)
                know |= see[t][0]
                full |= see[t][1]
        hs = list(dict.fromkeys(home.values()))
        for t in rng.sample(hs, rng.randint(0, len(hs)) if rng.random() < .6 else 0):
            f.add("inc", t=t, n=t.q)
            full |= {e for e in home if home[e] is t}
        if fwds and rng.random() < .5:
            f.add("inc", t=fwds, n=fwds.q)
            know |= {L["e"] for L in fwds.lines if L["k"] == "fwd"}
        know |= full
        for e in op:
            if rng.random() < (.15 if e in know else .6):
                f.add("fwd", e=e)
                know.add(e)
        see[f] = know, full
        n = rng.choice([1, 2, 3, 4])
        then = rng.randint(0, n) if f is P.main and late else -1
        for k in range(n + 1):
            if k == then:
                f.add("def", e=late, op=op[late])
                know.add(late)
                full.add(late)
            if k == n:
                break
            for attempt in range(12):
                rec = deal()
                c = dict(rec["code"])
                a = rng.choice([e for e in names if op[e] == "auto"])
                b = rng.choice([e for e in names if op[e] == ""])
                m = dict(tpls, A=a, B=b)
                u = [(m[n["e"]], n["k"]) for n in rec["h" if f is not P.main else "u"]]
                need = {e for e, k in u if k == "full"}
                if {e for e, _ in u} <= know and (need <= full or bad and attempt < 6):
                    break
            else:
                continue
            f.add("code", c=c["c"], y=pieces.replaced(c["y"], m), ops=c["ops"], fin=c["fin"],
                  z=m["B"] if c["fin"] in ("recast", "ccast", "retype") else "", v=rng.randint(0, 5))
    return P


def dealer(ck, depth):
    """Deals pieces of code."""
    recs = pieces_of_code(ck, depth)
    rng = ck.rng
    bulk = [r for r in recs if r["code"]["c"] == "expr"]
    rest = [r for r in recs if r["code"]["c"] != "expr"]
    todo = []

    def deal():
        # all mentions again and again, with as many expressions in between
        if not todo:
            todo.extend(rest + rng.sample(bulk, min(len(bulk), len(rest))))
            rng.shuffle(todo)
        return todo.pop()
    return deal


def d02(ck):
    rng = ck.rng
    deal = dealer(ck, 3 if THOROUGH else 2)
    ps = [use_program(rng, deal, rng.random() < .2) for _ in range(count(1500, 15000))]
    conform(ck, ps)
    used = {json.dumps([L["c"], L["ops"], L["fin"]]) for p in ps for f in p.files for L in f.lines if L["k"] == "code"}
    ck.count("kinds of code", len(used))
    ck.rule = ("pieces of code enumerated by the specification, in programs where their classes are defined, declared "
               "or both in various files; non-trivial: distinct reports")


CHECKS["D02"] = d02


def d03(ck):
    rng = ck.rng
    ps = []
    for _ in range(count(1200, 12000)):
        p = gen.base(rng, own=1.0 if rng.random() < .8 else 0, marks=.3, keep=.2, export=.2, also=.15, fwd=.5,
                     pragmas=.15, priv=.15, subdir=.3, **BIG)
        m = p.main
        r = rng.random()
        if r < .3:
            rename(rng, p)
        elif r < .45:
            incs = [L for L in m.lines if L["k"] == "inc"]
            if incs:
                rng.choice(incs)["m"] = "associated"
        elif r < .55:
            i = rng.randint(1, len(m.lines))
            m.lines.insert(i, dict(k="prag", op="associated", text="associated"))
        if rng.random() < .4:
            incs = [i for i, L in enumerate(m.lines) if L["k"] == "inc"]
            if len(incs) > 1:                 # the order of includes matters for the own header
                a, b = rng.sample(incs, 2)
                m.lines[a], m.lines[b] = m.lines[b], m.lines[a]
        ps.append(p)
    conform(ck, ps)
    ck.rule = "random source files with own headers under conventional and other names; non-trivial: distinct reports"


def rename(rng, p):
    """Gives the main file or its header another name of the same component."""
    h = next((f for f in p.files if f.name in ("m.h", "m-inl.h")), None)
    new = {p.main: rng.choice(["m.cc", "m_test.cc", "m_unittest.cc", "m.cpp", "src/m.cc", "x/m.cc", "m_regtest.cc", "m.cxx"])}
    if h:
        new[h] = rng.choice(["m.h", "m.hpp", "include/m.h", "y/m.h", "m-inl.h", "m_impl.h", "m.hh", "x/internal/m.h", "x/m.h", "mm.h"])
    renamed(p, new)


def renamed(p, new):
    old = {f.q: f for f in new}
    for f in p.files:
        for L in f.lines:
            if L["k"] == "prag" and L.get("a") in old:
                L["a"] = "%s"
    qs = {}
    for f, n in new.items():
        qs[f.q] = '"%s"' % n
        f.name = n
    for f in p.files:
        for L in f.lines:
            if "n" in L and L["n"] in qs:
                L["n"] = qs[L["n"]]
            if L["k"] == "prag":
                for a, b in qs.items():
                    if L["op"] in ("private_include", "no_include", "friend"):
                        L["text"] = L["text"].replace(a, b)
                if L.get("a") == "%s":
                    L["a"] = L["text"][L["text"].index('"'):]
                if L.get("x"):
                    L["x"] = [qs.get(x, x) for x in L["x"]]


CHECKS["D03"] = d03


def d04(ck):
    rng = ck.rng
    ps = []
    for _ in range(count(1200, 12000)):
        p = gen.base(rng, prefix=.75, own=.5, also=.5, marks=.25, fwd=.5, priv=.15, maps=.1, usedens=1.3, **BIG)
        p.opts["transitive"] = rng.random() < .35
        ps.append(p)
    conform(ck, ps, interesting=lambda p, r: ([f["text"] for f in r["files"]], p.opts, len(p.pfx)))
    ck.rule = "random programs with prefix headers and all policies; non-trivial: distinct reports with their policy"


CHECKS["D04"] = d04


# -- D05 ------------------------------------------------------------------------

def kind(rng, name, ns, single, cxx20):
    """A kind for a type, in namespaces of that path."""
    Pm = spell.Param
    k = spell.Kind(ns, name)
    n = name.replace("::", "_")
    r = rng.random()
    if r < .35:
        k.key = rng.choice(["struct", "class", "union", "class"])
        if k.key != "union":
            k.tail = rng.choice(["", "", "", " final"])
            k.other = rng.choice([None, ({"struct": "class", "class": "struct"}[k.key], [])])
    elif r < .55:
        k.key = rng.choice(["enum", "enum class", "enum struct", "enum"])
        u = rng.choice(["unsigned char", "int", "short", "bool", "long long"])
        full = {"short": "short", "long long": "long long"}.get(u, u)
        if rng.random() < (.6 if k.key == "enum" else .5):
            k.usrc, k.under = rng.choice([" : ", ": ", ":"]) + u, " : " + full
            if rng.random() < .3:
                k.pre, k.usrc = "typedef %s B%s; " % (u, n), " : B" + n
    else:
        k.key = rng.choice(["struct", "class", "union", "struct"])
        menu = [
            ([Pm("class X")], "<int>"), ([Pm("typename X")], "<int>"), ([Pm("typename")], "<int>"), ([Pm("int N")], "<3>"),
            ([Pm("int")], "<3>"), ([Pm("auto N")], "<3>"), ([Pm("bool B"), Pm("char")], "<true, 'a'>"),
            ([Pm("class T"), Pm("T V")], "<int, 1>"), ([Pm("class T"), Pm("T* V", "T *V")], "<int, nullptr>"),
            ([Pm("void (*F)(int)")], "<nullptr>"), ([Pm("unsigned long long N"), Pm("typename T")], "<3, int>"),
            ([Pm("class T", default="int")], "<>"), ([Pm("class T", default="int")], "<char>"),
            ([Pm("class T"), Pm("int N", default="3")], "<int>"), ([Pm("bool B", default="(1 > 2)")], "<>"),
            ([Pm("class... T", "class ...T", pack=True)], "<int, char>"), ([Pm("int... N", "int ...N", pack=True)], "<>"),
            ([Pm("class T"), Pm("typename...", "typename ...", pack=True)], "<int>"),
            ([Pm("class T"), Pm("B%s N" % n, dep=True)], "<int, 3>")]
        if cxx20 and single:
            menu += [([Pm("C%s T" % n, dep=True)], "<int>")] * 3
        k.params, k.args = rng.choice(menu)
        if any(p.default for p in k.params) and not single:
            k.params, k.args = menu[0]
        if any(p.dep for p in k.params):
            if k.params[0].src.startswith("C"):
                k.pre = "template <class X> concept C%s = true; " % n
                if rng.random() < .4:
                    k.clause, k.params = "requires C%s<T> " % n, [Pm("class T")]
            else:
                k.pre = "using B%s = int; " % n
        if k.params == [k.params[0]] and k.params[0].src == "class X" and rng.random() < .5:
            k.other = (k.key, [Pm(rng.choice(["typename Y", "class", "class OtherName"]))])
    if not k.enum:
        k.attr = rng.choice(["", "", "", "[[maybe_unused]]", "alignas(16)"])
    if rng.random() < .15:
        k.block = rng.choice(["in", "line", "out"])
        if k.pre and k.block == "line":
            k.block = "in"
    return k


def d05_program(rng):
    return of_kinds(rng, gen.base(rng, usedens=1.5, marks=.25, export=.3, priv=.1, also=.4, fwd=.8, own=.5, ns=.6, macros=False,
                                  pragmas=.2, **BIG))


def of_kinds(rng, p):
    """Gives the types of p kinds, and writes their declarations in various ways."""
    p.std = rng.choice(["c++17", "c++20"])
    p.opts["nofwd"] = rng.random() < .08
    p.fmt.update(ns17=rng.random() < .5, max=1000, long=rng.random() < .3)
    inline = rng.choice([{}, {}, {("n1",)}, {("n1", "n2")}, {("n3",)}])
    nameless = rng.random() < .15
    types = sorted({L["e"] for f in p.files for L in f.lines if L["k"] in ("def", "fwd")})
    for e in sorted({L["e"] for f in p.files for L in f.lines if L["k"] in ("def", "fwd", "fdecl")}):
        path = e.split("::")
        ns = [(n, tuple(path[:i + 1]) in inline) for i, n in enumerate(path[:-1])]
        if e not in types:
            p.kinds[e] = spell.Kind(ns, path[-1])
            continue
        if nameless and not any(i for _, i in ns) and rng.random() < .4:
            ns.append(("", False))
        lines = [(f, L) for f in p.files for L in f.lines if L["k"] in ("def", "fwd") and L["e"] == e]
        k = kind(rng, path[-1], ns, len(lines) == 1 or rng.random() < .5, p.std == "c++20")
        p.kinds[e] = k
        if any(q.default for q in k.params) or k.clause or k.pre.startswith("template"):
            # one declaration only, mostly the definition
            defs = [x for x in lines if x[1]["k"] == "def"]
            keep = rng.choice(defs if defs and (k.clause or rng.random() < .6) else lines)
            if keep[1]["k"] != "def" and k.clause:
                k.clause, k.pre = "", ""
                k.params = [spell.Param("class X")]
            for f in p.files:
                f.lines = [L for L in f.lines if not (L["k"] in ("def", "fwd") and L["e"] == e and L is not keep[1])]
        if k.key == "enum" and not k.usrc:
            for f in p.files:
                f.lines = [L for L in f.lines if not (L["k"] == "fwd" and L["e"] == e)]
        if e != k.long:
            for f in p.files:
                f.lines = [L for L in f.lines if not (L["k"] == "prag" and L["op"] == "no_forward_declare" and L["a"] == e)]
        for f in p.files:
            for L in f.lines:
                if L.get("e") != e:
                    continue
                if L["k"] == "fwd":
                    if rng.random() < .06 and not k.enum:
                        L["attr"] = "[[maybe_unused]]"
                    if rng.random() < .08 and not k.clause:
                        L["block"] = rng.choice(["in", "out", "line"] if not k.pre else ["in", "out"])
                    if k.other and rng.random() < .5:
                        L["alt"] = 2
                elif L["k"] == "full" and k.enum and rng.random() < .5:
                    L["k"] = "enum"
    return p


def pasted(prog, rec):
    """Checks the texts of the specification with a compiler: what it says is
    to be added declares what the program means, alone and before the program."""
    todo = []
    for fr in rec["files"]:
        for x in fr["lines"]:
            if x["k"] == "fwd" and x["des"] and not x["pres"]:
                todo.append((prog.fwdtext(x["n"], x["alt"]), prog.kind(x["n"])))
    # without a definition there may be no way but to mention what others declare
    todo = list({t: (t, k) for t, k in todo if not any(q.dep for q in k.params)}.values())
    if not todo:
        return
    texts = prog.texts()
    main = texts[prog.main.name]
    head = "".join(t + "\n" for t, _ in todo)
    uses = "".join("extern %s* q%d;\n" % (k.use, i) for i, (_, k) in enumerate(todo))
    alone = head + uses
    once = any(q.default for _, k in todo for q in k.params) or any(k.pre.startswith("template") for _, k in todo)
    for src in [alone] + ([] if once else [head + uses + main + uses]):
        texts[prog.main.name] = src
        d = lib.scratch()
        lib.write_files(d, texts)
        r = subprocess.run([lib.LLVM + "/bin/clang-20", "-fsyntax-only", "-w", "-std=" + prog.std, "-I.", "-xc++",
                            prog.main.name], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("the specification's declarations are wrong:\n%s\n%s" % (src, r.stdout[:1500]))


def d05(ck):
    rng = ck.rng
    ps = [d05_program(rng) for _ in range(count(1200, 14000))]
    done = []
    conform(ck, ps, interesting=lambda p, r: done.append((p, r)) or [f["text"] for f in r["files"]])
    lib.pmap(lambda x: pasted(*x), done)
    ck.count("programs whose declarations were compiled", len(done))
    ck.rule = ("random programs with types of all kinds in namespaces of all kinds, declared in all ways; non-trivial: "
               "distinct reports")


CHECKS["D05"] = d05
CHECKS.update(macros.CHECKS)
