"""R01-R03: what the reports say, in which form, and the exit status."""
import gen
from conform import conform, count
from lib import THOROUGH

CHECKS = {}
BIG = dict(nh=(4, 8)) if THOROUGH else {}


def r01(ck):
    n = count(1000, 12000)
    rng = ck.rng
    ps = [gen.base(rng, tall=.3, dup=.15, fwd=.7, ns=.1, also=.4, **BIG) for _ in range(n // 2)]
    ps += [gen.base(rng, marks=.4, priv=.3, pragmas=.3, also=.4, maps=.3, dup=.1, prefix=.2, sysh=.15, **BIG)
           for _ in range(n - n // 2)]
    conform(ck, ps)
    ck.rule = "random programs; non-trivial: distinct reports"
    ck.assumptions = ["lines of the generated programs are the kinds listed in IwyuWalk"]


CHECKS["R01"] = r01


def r02(ck):
    rng = ck.rng
    ps = []
    for _ in range(count(900, 9000)):
        p = gen.base(rng, also=.4, own=.7, subdir=.3, marks=.2, fwd=.3)
        p.fmt["error"] = rng.choice([0, 1, 2, 7, 255])
        p.fmt["always"] = rng.choice([0, 0, 0, 3, 1])
        p.fmt["v"] = rng.choice([1, 1, 0, 2])
        r = rng.random()
        if r < .12:
            # something that is not declared anywhere
            f = rng.choice(p.files)
            f.add("full", e="Nowhere")
        elif r < .2:
            # one that is correct already: nothing but the includes that are used
            for f in p.files:
                f.lines = [L for L in f.lines if L["k"] in ("inc", "def", "fdecl", "mdef")
                           or L["k"] == "nop" and L["text"] != "#endif"]
                for L in f.lines:
                    if L["k"] == "inc":
                        L["m"] = "keep"
        elif r < .35:
            p.globs = rng.choice([["*.h"], ["s/*"], ["*/*.h"], ["[ab].h"], ["?.h"], ["nothing.h"], ["a.h", "*b.h"], ["[!a].h"], ["*[cd]*"], ["?/?.h"], ["*"], ["./a.h", "s//b.h"], ["s/../b.h"]])
        ps.append(p)
    conform(ck, ps, interesting=lambda p, r: (r.get("status"), p.fmt, [f["text"] for f in r.get("files", [])]))
    ck.rule = "random programs, some broken, some correct, with exit codes, verbosity and patterns; non-trivial: distinct (status, options, reports)"


CHECKS["R02"] = r02


def r03(ck):
    rng = ck.rng
    n = count(1000, 10000)
    ps = [gen.base(rng, ns=.4, tall=.2, sysh=.35, dup=.1, longnames=.5, fmt=True, also=.3, own=.8, **BIG)
          for _ in range(n)]
    for p in ps:
        p.fmt["error"] = p.fmt["always"] = 0
        if rng.random() < .3:
            p.fmt["v"] = 1
        if rng.random() < .5:
            p.fmt["max"] = rng.randint(0, 120)
    conform(ck, ps, interesting=lambda p, r: ([f["text"] for f in r["files"]], p.fmt["max"]))
    ck.rule = "random programs with long names, system headers and all formatting options; non-trivial: distinct texts"


CHECKS["R03"] = r03
