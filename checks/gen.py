"""Random programs for the checks of the analyser."""
import os

import maps
import progs


def base(rng, nh=(2, 6), marks=0.2, priv=0.15, opts=False, subdir=0.15, also=0.1, fwd=0.4,
         macros=True, quiet=False, export=0.25, keep=0.1, pragmas=0.1, usedens=1.0, own=0.6,
         stray=0.0, cyc=0.03, fmt=False, prefix=0.0, keepglob=0.0, maps=0.0, internal=0.0,
         ns=0.0, tall=0.0, sysh=0.0, dup=0.0, longnames=0.0, rel=0.0, ranges=0.3):
    """A program that compiles: headers form a DAG (rarely with back edges)."""
    P = progs.Prog()
    n = rng.randint(*nh)
    P.main = P.file("m.cc", hdr=False)
    hs = []
    if rng.random() < own:
        hs.append(P.file(rng.choice(["m.h", "m-inl.h"] if rng.random() < .3 else ["m.h"])))
    while len(hs) < n:
        name = "abcdefgh"[len(hs)] + ".h"
        if rng.random() < subdir:
            name = rng.choice(["s/", "t/"]) + name
        elif rng.random() < sysh:
            name = "sys/" + rng.choice([name, name[:-2]])
        elif rng.random() < internal:
            name = rng.choice(["internal/", "s/internal/", "s/internal/", "t/internal/"]) + name
        hs.append(P.file(name))
    order = [P.main] + hs

    def name(fmtstr, k):
        e = fmtstr % k
        if rng.random() < longnames:
            e += "_" + rng.choice("abcdefgh") * rng.choice([1, 4, 9, 20, 60])
        if rng.random() < ns:
            e = rng.choice(["n1::", "n1::n2::", "n3::"]) + e
        return e
    ents = {}
    types, fns, macs = [], [], []
    defs = {}          # file -> entities it defines
    for i, f in enumerate(hs):
        defs[f] = []
        for k in range(rng.choice([0, 1, 1, 1, 2])):
            r = rng.random()
            if r < .6:
                e = name("T%d", len(types))
                types.append(e)
                defs[f].append(("def", e))
            elif r < .8 or not macros:
                e = name("f%d", len(fns))
                fns.append(e)
                defs[f].append(("fdecl", e))
            else:
                e = "M%d" % len(macs)
                macs.append(e)
                defs[f].append(("mdef", e))
    # includes
    incs = {}
    for i, f in enumerate(order):
        cand = order[i + 1:]
        if rng.random() < cyc and i > 0:
            cand = [x for x in hs if x is not f]
        if f.sys:
            cand = [x for x in cand if x.sys]
        k = min(len(cand), rng.choice([0, 1, 1, 2, 2, 3]) + (1 if f is P.main else 0))
        t = rng.sample(cand, k) if k else []
        if f is P.main and hs and hs[0].name.startswith("m") and hs[0] not in t and rng.random() < .8:
            t.insert(0, hs[0])
        if f is P.main and not t and hs:
            t = [rng.choice(hs)]
        if rng.random() < .5:
            t.sort(key=lambda x: order.index(x))
        incs[f] = t
    for f in order:
        if f is not P.main and rng.random() < also:
            f.also = True
    # what is visible textually
    P_incs = incs

    def visible_after(f):
        """Simulates reading f when it is entered first (approximation used only
        to bias the choice; the specification decides what compiles)."""
        seen, out = set(), []

        def go(x):
            if x in seen:
                return
            seen.add(x)
            for t in P_incs[x]:
                go(t)
            out.extend(defs.get(x, []))
        for t in P_incs[f]:
            go(t)
        return out

    fwd_of = {}
    for f in order:
        # head marks
        if f is not P.main and rng.random() < priv:
            r = rng.random()
            if r < .6:
                tgt = rng.choice([x for x in hs if x is not f] or [f])
                a = tgt.q if rng.random() < .85 else '"pub%d.h"' % rng.randint(1, 2)
                f.add("prag", op="private_include", a=a, text="private, include " + a)
            else:
                f.add("prag", op="private", text="private")
            if rng.random() < .4:
                x = rng.choice(order)
                f.add("prag", op="friend", text="friend " + x.q, x=[x.q])
        if rng.random() < pragmas:
            r = rng.random()
            if r < .4:
                t = rng.choice(hs)
                f.add("prag", op="no_include", a=t.q, text="no_include " + t.q)
            elif r < .7 and types:
                e = rng.choice(types)
                f.add("prag", op="no_forward_declare", a=e, text="no_forward_declare " + e)
            elif f is not P.main:
                f.add("prag", op="always_keep", text="always_keep")
        # includes, possibly in ranges
        open_ = None
        for t in incs[f]:
            if rng.random() < marks * ranges and open_ is None:
                open_ = rng.choice(["exports", "keep"])
                f.add("prag", op="begin_" + open_, text="begin_" + open_)
            kw = {}
            if open_ is None or rng.random() < .1:
                r = rng.random()
                if r < marks * export:
                    kw["m"] = "export"
                elif r < marks * (export + keep):
                    kw["m"] = "keep"
                elif f is P.main and r < marks * (export + keep + .05):
                    kw["m"] = "associated"
            f.add("inc", t=t, n=relative(rng, f, t) if rng.random() < rel else t.q, **kw)
            if rng.random() < dup:
                f.add("inc", t=t, n=t.q)
            if open_ and rng.random() < .5:
                f.add("prag", op="end_" + open_, text="end_" + open_)
                open_ = None
        if open_ and rng.random() < .95:
            f.add("prag", op="end_" + open_, text="end_" + open_)
        elif stray and rng.random() < stray:
            f.add("prag", op="end_keep", text="end_keep")
        vis = visible_after(f)
        # forward declarations
        mine = []
        for e in types:
            if rng.random() < fwd * (.5 if f is P.main else .25):
                m = {}
                if rng.random() < marks * .5:
                    m["m"] = rng.choice(["keep", "export"]) if e not in fwd_of else "keep"
                    if m["m"] == "export":
                        fwd_of[e] = f
                if rng.random() < tall:
                    m["h"] = rng.choice([2, 3])
                f.add("fwd", e=e, **m)
                mine.append(e)
        for k, e in defs.get(f, []):
            f.add(k, e=e)
        # uses
        vdefs = [e for k, e in vis if k == "def"]
        vfn = [e for k, e in vis if k == "fdecl"]
        vm = [e for k, e in vis if k == "mdef"]
        nuse = rng.choice([0, 1, 1, 2, 3] if f is not P.main else [1, 2, 2, 3, 4, 5])
        for _ in range(int(nuse * usedens + .5)):
            r = rng.random()
            if r < .35 and vdefs:
                f.add("full", e=rng.choice(vdefs))
            elif r < .7 and (vdefs or mine):
                f.add("ptr", e=rng.choice(vdefs + mine + mine))
            elif r < .85 and vfn:
                f.add("fn", e=rng.choice(vfn))
            elif vm:
                e = rng.choice(vm)
                if rng.random() < .6:
                    f.add("muse", e=e)
                else:
                    f.add("mtest", e=e)
                    f.add("endif")
    if fmt:
        P.fmt = dict(P.fmt, v=rng.choice([0, 1, 1, 2]), max=rng.choice([80, 80, 30, 34, 40, 26, 20, 200, 1]), none=rng.random() < .1,
                     update=rng.random() < .3, long=rng.random() < .4, ns17=rng.random() < .3, quoted=rng.random() < .3,
                     error=rng.choice([0, 0, 1, 7, 255]), always=rng.choice([0, 0, 0, 3]))
    if prefix and rng.random() < prefix:
        x = rng.sample(hs, min(len(hs), rng.choice([1, 1, 2])))
        P.pfx = x
        P.opts["prefix"] = rng.choice(["add", "keep", "remove"])
    for f in hs:
        if rng.random() < keepglob:
            f.keep = True
    if maps and rng.random() < maps:
        mapping(rng, P)
    if opts:
        P.opts["nofwd"] = rng.random() < .15
        P.opts["transitive"] = rng.random() < .15
    return P


def relative(rng, f, t):
    """Another name of t that f can use, if there is one."""
    if t.sys:
        return t.q
    d = os.path.dirname(f.name)
    r = os.path.relpath(t.name, d or ".")
    return '"%s"' % (r if rng.random() < .7 else rng.choice(["./" + r, r, os.path.join(os.path.dirname(r), "./" + os.path.basename(r))]))


def mapping(rng, P):
    """Rules about the program's headers and some that do not exist, in one or
    more mapping files."""
    names = [f.q for f in P.files if f is not P.main] + ['"pub1.h"', '"pub2.h"', "<sys1>", "<sys2.h>"]
    names = list(dict.fromkeys(names))
    ents = sorted({L["e"] for f in P.files for L in f.lines if L["k"] in ("def", "fdecl", "mdef")})
    rules = []
    vis = {}
    for _ in range(rng.randint(1, 6)):
        a, b = rng.choice(names), rng.choice(names)
        if a == b:
            continue
        if rng.random() < .3 and ents:
            e = rng.choice(ents)
            bv = vis.setdefault(b, rng.choice(["public"] * 3 + ["private"]))
            rules.append(maps.symbol(e, b, bv))
        else:
            av = vis.setdefault(a, rng.choice(["private"] * 3 + ["public"]))
            bv = vis.setdefault(b, rng.choice(["public"] * 3 + ["private"]))
            rules.append(maps.include(a, av, b, bv))
    P.docs = [maps.doc("map.imp", [maps.item(r) for r in rules])]
    P.mapargs = ["map.imp"]
    return P
