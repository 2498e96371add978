"""Mapping files: their parts, their text, their form for the specification."""
import json
import os
import re

NONE = dict(k="none")


def entry(d, seq=(), val="", rx=None, to=None):
    return dict(d=d, seq=list(seq), val=val, re=rx or NONE, to=to or [])


def include(a, av, b, bv):
    return entry("include", [a, av, b, bv])


def symbol(s, n, v):
    return entry("symbol", [s, "private", n, v])


def ref(f):
    return entry("ref", val=f)


def item(*ents):
    return dict(obj=True, ents=list(ents))


def doc(name, items, end=""):
    return dict(name=name, items=items, end=end)


# -- expressions ----------------------------------------------------------------

def chars(s):
    return [dict(k="chr", c=c) for c in s]


def cat(*xs):
    r = []
    for x in xs:
        r += chars(x) if isinstance(x, str) else [x]
    return dict(k="cat", xs=r)


ANY = dict(k="any")


def star(x):
    return dict(k="star", x=x)


def alt(*xs):
    return dict(k="alt", xs=[cat(x) if isinstance(x, str) else x for x in xs])


def grp(n, x):
    return dict(k="grp", n=n, x=x)


def oneof(cs, neg=False):
    return dict(k="set", cs=list(cs), neg=neg)


SPECIAL = set(".[]{}()*+?|^$\\")


def text(x, top=True):
    k = x["k"]
    if k == "chr":
        return "\\" + x["c"] if x["c"] in SPECIAL else x["c"]
    if k == "any":
        return "."
    if k == "set":
        return "[%s%s]" % ("^" if x["neg"] else "", "".join(x["cs"]))
    if k == "star":
        return text(x["x"], False) + "*"
    if k == "alt":
        return "|".join(text(y) for y in x["xs"])
    if k == "cat":
        return "".join(text(y, False) for y in x["xs"])
    if k == "grp":
        return "(%s)" % text(x["x"])
    raise AssertionError(k)


def pattern(x, v, to, tv, dialect="llvm"):
    """An include rule for an expression; to: texts and numbers of groups."""
    mark = {"llvm": "\\%d", "ecmascript": "$%d"}[dialect]
    raw = "".join(mark % p if isinstance(p, int) else p for p in to)
    return entry("include", ["@" + text(x), v, raw, tv], rx=x,
                 to=[dict(g=p, t="") if isinstance(p, int) else dict(g=0, t=p) for p in to])


# -- text ------------------------------------------------------------------------

def render_entry(e):
    if e["seq"]:
        v = "[" + ", ".join(json.dumps(s) for s in e["seq"]) + "]"
    else:
        v = json.dumps(e["val"])
    return '"%s": %s' % (e["d"], v)


def render(d):
    if d["end"] == "noarray":
        return '{ "include": "x" }\n'
    if d["end"] == "junk":
        return d.get("junk", "]\n")
    out = "[\n"
    for i in d["items"]:
        if i["obj"]:
            out += "  { %s },\n" % ", ".join(render_entry(e) for e in i["ents"])
        else:
            out += '  "text",\n'
    if d["end"] == "cut":
        return out + d.get("cut", '  { "symbol": [ "x"')
    return out + "]\n"


def spec(docs):
    return [dict(name=d["name"], items=d["items"], end=d["end"]) for d in docs]


def entries(docs):
    for d in docs:
        for i in d["items"]:
            if i["obj"]:
                yield from i["ents"]


BUILTIN = re.findall(r'"(<[^"]+>)"', open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "IwyuMaps.tla")).read())


def names(docs, known):
    """All texts that rules may lead to (and some that they cannot)."""
    res = set(known) | set(BUILTIN)
    rx = []
    for e in entries(docs):
        if len(e["seq"]) == 4:
            if e["seq"][0].startswith("@"):
                rx.append(e)
            elif e["d"] == "include":
                res.add(e["seq"][0])
            res.add(e["seq"][2])
    for e in rx:
        try:
            c = re.compile(text(e["re"]))
        except re.error:
            continue
        for n in list(res):
            m = c.fullmatch(n)
            if m:
                res.add("".join((m.group(p["g"]) or "") if p["g"] else p["t"] for p in e["to"]))
    return res


DIAG = re.compile(r"^(\S+\.imp):\d+:\d+: error: (.*)$")
OPEN = re.compile(r"^Cannot open mapping file '(.*)': .*$")
PARSE = re.compile(r"^Cannot parse mapping file '(.*)'\.$")
CYCLE = re.compile(r"^Mapping file '(.*)' refers to itself.*$")


def diagnostics(out):
    """What the analyser says about mapping files: (file, text), without
    repetitions, in order."""
    res = []
    known = ("Symbol mapping", "Include mapping", "Unknown", "Expected to-entry", "Expected from-entry",
             "Mapping ", "Root element")
    for line in out.split("\n"):
        for rx, what in ((DIAG, None), (OPEN, "Cannot open"), (PARSE, "Broken"), (CYCLE, "Refers to itself")):
            m = rx.match(line)
            if m:
                name = os.path.normpath(m.group(1))
                t = what or (m.group(2) if m.group(2).startswith(known) else "Broken")
                res.append((name, t))
                break
    return once(res)


def once(remarks):
    """A broken file leads to several lines."""
    res, broken = [], None
    for name, text in remarks:
        if name == broken and not text.startswith("Refers"):
            continue
        broken = name if text == "Broken" else None
        res.append((name, text))
    return res
