"""D06: uses of macros and uses through macros."""
import gen
from conform import conform, count
from lib import THOROUGH

CHECKS = {}
BIG = dict(nh=(3, 8)) if THOROUGH else dict(nh=(2, 6))

BODIES = dict(x=["one", "sz", "sz", "fn", "mac", "mac"], d=["pt"], a=["asz", "asz", "apt", "aone", "nest", "nest", "paste"])
TESTS = ["ifdef", "ifndef", "defined", "ndefined", "and", "if", "elif", "elifdef", "elifndef"]


class Writer:
    """Reads a program as a compiler does and puts macros into it on the way;
    lines that make no sense where they stand are left out."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self.types, self.defs, self.fns, self.macros = [], [], [], {}
        self.shape = {"M%d" % i: rng.choice("xxdaa") for i in range(rng.choice([2, 3, 4, 5]))}
        self.read = set()

    def pick(self, xs):
        return self.rng.choice(xs) if xs else None

    def fine(self, e, arg="int", argm=False, depth=0):
        """Whether the text that e stands for makes sense."""
        if e not in self.macros or depth > 9:
            return False
        b, be = self.macros[e]
        if b == "sz":
            return be in self.defs
        if b == "fn":
            return be in self.fns
        if b == "mac":
            return self.fine(be, depth=depth + 1)
        if b == "nest":
            return self.fine(be, arg, argm, depth + 1)
        if b == "pt":
            return be in self.types
        if b == "paste":
            return not argm and be + arg in self.defs
        if argm:
            return b in ("asz", "aone") and self.fine(arg)
        return arg == "int" or arg in (self.types if b == "apt" else self.defs) or b == "aone"

    def pastes(self, e, depth=0):
        b, be = self.macros.get(e, ("", ""))
        return b == "paste" or b == "nest" and depth < 9 and self.pastes(be, depth + 1)

    def value(self, e):
        b, be = self.macros.get(e, ("", ""))
        return b == "one" or b == "mac" and self.value(be)

    def holds(self, L):
        e, b = L["e"], L["b"]
        return {"and": False, "if": self.value(e)}.get(b, (e in self.macros) != (b in ("ifndef", "ndefined", "elifndef")))

    def definition(self):
        e = self.rng.choice(sorted(self.shape))
        s = self.shape[e]
        b = self.rng.choice(BODIES[s])
        be = ""
        if b in ("mac", "nest"):
            be = self.pick([m for m in sorted(self.shape) if m < e and self.shape[m] == s])
        elif b == "sz":
            be = self.pick(self.defs if self.rng.random() < .6 else self.p_types)
        elif b == "pt":
            be = self.pick(self.types if self.rng.random() < .6 else self.p_types)
        elif b == "fn":
            be = self.pick(self.fns if self.rng.random() < .6 else self.p_fns)
        elif b == "paste":
            be = "T"
        if be is None:
            return []
        r = [dict(k="mdef", e=e, b=b, be=be)]
        return ([dict(k="undef", e=e)] if e in self.macros and self.rng.random() < .7 else []) + r

    def use(self):
        es = sorted(self.macros)
        for _ in range(4):
            e = self.pick(es)
            if e is None:
                return []
            L = dict(k="muse", e=e, shape=self.shape[e])
            if L["shape"] == "a":
                if self.pastes(e):
                    t = self.pick(self.defs)
                    L["arg"] = t[1:] if t and t.startswith("T") and "::" not in t else "0"
                elif self.rng.random() < .25 and self.macros:
                    L.update(arg=self.pick([m for m in es if self.shape[m] == "x"] or ["int"]))
                    L["argm"] = L["arg"] != "int"
                else:
                    L["arg"] = self.pick(self.defs if self.rng.random() < .7 else self.types) or "int"
            if self.fine(e, L.get("arg", "int"), L.get("argm", False)):
                return [L]
        return []

    def test(self, rest):
        """A condition around the next lines."""
        e = self.rng.choice(sorted(self.shape))
        t = self.rng.choice(TESTS)
        if t == "if" and self.shape[e] != "x" or t == "if" and e in self.macros and not self.plain(e):
            t = "ifdef"
        n = min(len(rest), self.rng.choice([0, 0, 1, 1, 2, 3]))
        inner = rest[:n]
        if any(L["k"] in ("mtest", "else", "endif") or L["k"] == "prag" and "_" in L["op"] for L in inner):
            inner = []
        new = list(inner)
        if self.rng.random() < .3:
            new.insert(self.rng.randint(0, len(new)), dict(k="else"))
        n = len(inner)
        return [dict(k="mtest", e=e, b=t, h=2 if t.startswith("el") else 1)] + new + [dict(k="endif")], n

    def plain(self, e, depth=0):
        """Whether e can stand in a condition."""
        b, be = self.macros.get(e, ("one", ""))
        return b == "one" or b == "mac" and depth < 9 and self.plain(be, depth + 1)

    def walk(self, f, dens):
        if f in self.read:
            return
        self.read.add(f)
        out, cond = [], []
        rest = list(f.lines)
        gap = 0
        while rest or gap >= 0:
            L = rest[0] if rest else None
            if out and self.rng.random() < dens and all(on for on, _ in cond):
                r = self.rng.random()
                if r < .35:
                    rest[:0] = self.definition()
                elif r < .8:
                    rest[:0] = self.use()
                else:
                    new, n = self.test(rest)
                    rest[:n] = new
                L = rest[0] if rest else None
            if L is None:
                break
            del rest[0]
            k = L["k"]
            if k == "mtest":
                c = self.holds(L)
                cond.append((c, not c) if all(on for on, _ in cond) else (False, False))
            elif k == "else":
                cond[-1] = (cond[-1][1], False)
            elif k == "endif":
                cond.pop()
            elif all(on for on, _ in cond):
                if not self.sensible(L, dens):
                    continue
            out.append(L)
        f.lines = out

    def sensible(self, L, dens):
        k, e = L["k"], L.get("e")
        if k == "inc":
            self.walk(L["t"], dens)
        elif k == "mdef":
            self.macros[e] = (L["b"], L["be"])
        elif k == "undef":
            self.macros.pop(e, None)
        elif k == "def":
            if e in self.defs:
                return False
            self.defs.append(e)
            self.types.append(e)
        elif k == "fwd":
            self.types.append(e)
        elif k == "fdecl":
            self.fns.append(e)
        elif k == "ptr":
            return e in self.types
        elif k == "full":
            return e in self.defs
        elif k == "fn":
            return e in self.fns
        return True


def program(rng):
    p = gen.base(rng, usedens=.7, marks=.2, export=.3, keep=.1, priv=.1, also=.6, fwd=.4, own=.5, pragmas=.1, subdir=.1, **BIG)
    w = Writer(rng, p)
    for f in p.files:
        f.lines = [L for L in f.lines if L["k"] not in ("mdef", "muse", "mtest", "endif")]
    w.p_types = sorted({L["e"] for f in p.files for L in f.lines if L["k"] in ("def", "fwd")})
    w.p_fns = sorted({L["e"] for f in p.files for L in f.lines if L["k"] == "fdecl"})
    w.walk(p.main, rng.choice([.2, .35, .5]))
    return p


def d06(ck):
    ps = [program(ck.rng) for _ in range(count(1300, 14000))]
    conform(ck, ps)
    ck.rule = ("random programs with macros defined, redefined, ended, tested, expanded and nested over several files, with "
               "types and functions in their bodies and arguments; non-trivial: distinct reports")


CHECKS["D06"] = d06
