"""P01-P05: marks in the source."""
import decide
import gen
import progs
from conform import conform, count
from lib import THOROUGH
from naming import called, placed

CHECKS = {}
BIG = dict(nh=(3, 8)) if THOROUGH else dict(nh=(2, 6))


def p01(ck):
    rng = ck.rng
    ps = [gen.base(rng, marks=.9, export=.35, keep=.45, keepglob=.15, pragmas=.25, priv=.1, also=.3, dup=.1,
                   maps=.15, prefix=.1, fwd=.6, **BIG) for _ in range(count(1100, 12000))]
    for p in ps:
        if rng.random() < .2:
            p.keeps = rng.choice([["s/*"], ["?.h"], ["[ab].h", "[!a].h"], ["*"], ["t/*.h", "c*"], ["*/"], ["./a.h"], ["a"]])
    ps = [placed(rng, p) for p in ps]
    conform(ck, ps)
    ck.rule = "random programs in which most includes are marked; non-trivial: distinct reports"


CHECKS["P01"] = p01


def p02(ck):
    rng = ck.rng
    ps = [gen.base(rng, pragmas=0, marks=.25, priv=.2, also=.4, fwd=.5, maps=.2, **BIG) for _ in range(count(1100, 12000))]
    deal = decide.dealer(ck, 2)
    ps += [decide.use_program(rng, deal, False) for _ in range(count(500, 5000))]
    for p in ps:
        names = [f.q for f in p.files] + ['"pub1.h"', '"pub2.h"', "<sys1>"]
        ents = p.entities() or ["T0"]
        for f in p.files:
            for _ in range(rng.choice([0, 0, 1, 2])):
                if rng.random() < .55:
                    a = rng.choice(names)
                    L = dict(k="prag", op="no_include", a=a, text="no_include " + a)
                else:
                    e = rng.choice(ents)
                    L = dict(k="prag", op="no_forward_declare", a=e, text="no_forward_declare " + e)
                f.lines.insert(rng.randint(1, len(f.lines)), L)
        p.opts["nofwd"] = rng.random() < .25
    conform(ck, ps)
    ck.rule = "random programs with no_include and no_forward_declare anywhere, with and without forward declarations switched on; non-trivial: distinct reports"


CHECKS["P02"] = p02

MARKS = [("begin_exports", {}), ("end_exports", {}), ("begin_keep", {}), ("end_keep", {}),
         ("keep", {}), ("export", {}), ("private", {}), ("always_keep", {}),
         ("no_include", dict(a='"zz.h"')), ("no_forward_declare", dict(a="ZZ")),
         ("friend", dict(x=['"q.h"'], arg='"q.h"')), ("private_include", dict(a='"zz.h"', spell='private, include "zz.h"')),
         ("associated", {}),
         ("unknown", dict(a="bogus", spell="bogus")), ("unknown", dict(a="begin_keeps", spell="begin_keeps")),
         ("unknown", dict(a="exports", spell="exports"))]


def mark(op, a="", x=None, spell=None, arg=""):
    text = spell or (op + (" " + (a or arg) if (a or arg) else ""))
    return dict(k="prag", op=op, a=a, x=x or [], text=text)


def p03(ck):
    rng = ck.rng
    ps = []
    for _ in range(count(1200, 15000)):
        p = gen.base(rng, marks=.15, pragmas=0, priv=.05, also=.5, fwd=.5, dup=.05, nh=(2, 5))
        for f in p.files:
            if rng.random() < .6:
                for _ in range(rng.choice([1, 2, 3, 4, 6])):
                    op, kw = rng.choice(MARKS[:4]) if rng.random() < .7 else rng.choice(MARKS)
                    f.lines.insert(rng.randint(1, len(f.lines)), mark(op, **kw))
        ps.append(p)
    conform(ck, ps, interesting=lambda p, r: ([f["text"] for f in r["files"]], r["diags"]))
    ck.rule = "random programs with random sequences of marks; non-trivial: distinct reports and diagnostics"
    ck.assumptions = ["marks on the lines of includes and declarations still act inside a range although they are refused"]


CHECKS["P03"] = p03


def p04(ck):
    rng = ck.rng
    ps = [gen.base(rng, priv=.55, marks=.15, pragmas=.05, also=.35, internal=.12, maps=.2, own=.5, sysh=.05, **BIG)
          for _ in range(count(1200, 12000))]
    ps = [placed(rng, p) for p in ps]
    for p in ps:
        for f in p.files[1:]:
            if rng.random() < .25:
                pat, names = pattern(rng, p)
                f.lines.insert(1, dict(k="prag", op="friend", text="friend " + pat, x=names))
    conform(ck, ps)
    ck.rule = "random programs with many private headers, friends and internal directories; non-trivial: distinct reports"


def pattern(rng, p):
    """A friend expression and the names it matches."""
    import re
    qs = [f.q for f in p.files]
    k = rng.randint(0, 5)
    if k == 0 or p.layout:
        q = rng.choice(qs)
        return q, called(p, q)
    if k == 1:
        pat, rx = '"s/.*"', r'"s/.*"'
    elif k == 2:
        pat, rx = '"@"[a-c].h""', r'"[a-c].h"'
    elif k == 3:
        pat, rx = '.*', None
    elif k == 4:
        pat, rx = '"(a|b|m).(h|cc)"', r'"(a|b|m).(h|cc)"'
    else:
        pat, rx = '".*/.*.h"', r'".*/.*.h"'
    return quoted(pat, rx, qs)


def quoted(pat, rx, qs):
    import re
    if pat in ('.*', '"@"[a-c].h""'):
        pat, rx = '".*.cc"', r'".*.cc"'
    return pat, [q for q in qs if re.fullmatch(rx, q)]


CHECKS["P04"] = p04


def p05(ck):
    rng = ck.rng
    ps = [gen.base(rng, marks=1.0, export=.6, keep=.05, pragmas=.05, priv=.12, also=.35, fwd=.4, internal=.05,
                   usedens=1.3, **BIG) for _ in range(count(1200, 12000))]
    ps = [placed(rng, p, .5) for p in ps]
    conform(ck, ps)
    ck.rule = "random programs in which most includes are exported; non-trivial: distinct reports"


CHECKS["P05"] = p05
