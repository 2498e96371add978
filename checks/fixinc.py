"""F01-F07: the fixer fix_includes.py, run for real on generated files, against the
specifications FixDoc/FixTrace (editing), FixReports (reading and merging reports),
FixFiles (which files are written) and FixBytes (encodings, line endings)."""
import json
import os
import re
import shutil
import subprocess
import sys

from lib import *

FIX = os.path.join(REPO, "fix_includes.py")
PY = sys.executable


def fix(d, report, args=(), timeout=60):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    if isinstance(report, str):
        report = report.encode("utf-8", "surrogateescape")
    try:
        r = subprocess.run([PY, FIX] + list(args), cwd=d, input=report, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -99, "", "did not end"
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


# --------------------------------------------------------------------------
# Documents

DIRS = [[], ["base"], ["lib"], ["base", "sub"], ["src", "public"], ["src", "internal"], ["proj", "x"], ["sys"]]
STEMS = ["alpha", "beta", "gamma", "foo", "foo_test", "bar", "Zed", "a", "ab", "a-b", "a_b", "util"]


class Doc:
    """A generated file: lines with their kinds, units, and the advice for it."""

    def __init__(self, rng, opts):
        self.rng = rng
        self.o = opts
        self.lines = []      # dict(k, text, d, nm, mid)
        self.units = []
        self.adds = []
        self.n = 0           # for unique texts
        self.keys = set()
        self.first_inc = True
        self.in_code = 0
        self.path = []       # open namespaces
        self.ifs = 0

    # -- helpers
    def uid(self):
        self.n += 1
        return self.n

    def line(self, k, text, d=0, nm=(), mid=False):
        self.lines.append(dict(k=k, text=text, d=d, nm=list(nm), mid=mid))
        return len(self.lines)

    def inc_name(self):
        rng = self.rng
        for _ in range(200):
            if rng.random() < self.o.get("own", 0.12):
                base = self.o["stem"]
                for suf in ("_unittest", "_regtest", "_test"):
                    if base.endswith(suf) and rng.random() < 0.8:
                        base = base[:-len(suf)]
                        break
                base += rng.choice([".h", ".h", "-inl.h", ".hpp", ".hh", ".H", ".inc"])
                d = rng.choice([self.o["dir"], self.o["dir"], ["other"], []] +
                               [[{"internal": "public"}.get(c, c) for c in self.o["dir"]]])
                x = dict(angle=rng.random() < 0.05, dir=list(d), base=base)
            elif rng.random() < 0.4:
                x = dict(angle=True, dir=rng.choice([[], [], ["sys"], ["lib.d"], ["lib"]]),
                         base=rng.choice(["vector", "map", "stdio.h", "string", "a.h", "zlib.h", "list", "set",
                                          "memory", "ctype.h", "errno.h", "queue", "foo.h"]))
            else:
                x = dict(angle=False, dir=list(rng.choice(DIRS)),
                         base=rng.choice(STEMS) + rng.choice([".h", ".h", ".h", "-inl.h", ".hpp", ".inc", ""]))
            if rng.random() < 0.35:
                x["base"] = rng.choice(["x", "q", "M", "_"]) + str(self.uid()) + x["base"]
            key = self.key(x)
            if key not in self.keys:
                self.keys.add(key)
                return x
        x = dict(angle=False, dir=[], base="u%d.h" % self.uid())
        return x

    @staticmethod
    def key(x):
        s = "/".join(x["dir"] + [x["base"]])
        return "<%s>" % s if x["angle"] else '"%s"' % s

    def comments(self, p=0.25):
        if self.rng.random() < .06:
            self.mark()
        if self.rng.random() < p:
            k = self.rng.randint(1, 2)
            if self.rng.random() < 0.25:
                u = self.uid()
                self.line("com", "/* note %d" % u)
                for _ in range(k - 1):
                    self.line("com", "   inner %d #include <no>" % self.uid())
                self.line("com", " * end %d */" % u)
            else:
                for _ in range(k):
                    w = self.rng.choice(["note %d", "#include \"no%d.h\"", "namespace c%d { class C; }",
                                         "class N%d;", "} note %d {", "TODO(x): %d", "#if %d", "IWYU %d"])
                    self.line("com", self.rng.choice(["// ", "//", "  // "]) + w % self.uid())

    def mark(self):
        w = self.rng.choice(["private", 'private, include "no%d.h"' % self.uid(), "always_keep", "friend x%d" % self.uid(),
                             "no_include <no%d>" % self.uid(), "no_forward_declare N%d" % self.uid(), "keep", "export"])
        t = self.rng.choice(["// IWYU pragma: %s", "//IWYU pragma: %s", "  // IWYU pragma: %s", "/* IWYU pragma: %s */"]) % w
        self.line("mark", t + ("  // m%d" % self.uid() if self.rng.random() < .5 and t[-1] != "/" else ""))

    def include(self, pin=False, dup_of=None):
        rng = self.rng
        if dup_of is not None:
            src = self.units[dup_of - 1]
            if src["k"] != "inc" or src["pin"]:
                return
            text = src["text"]
            x = dict(src)
            x.update(cls=src["cls"])
            if self.o.get("comments") and not self.o.get("sort"):
                return       # the comment is not its own then
            if re.search("// u[0-9]+$", text):
                text = re.sub("// u[0-9]+$", "// u%d" % self.uid(), text)
                self.comments(0.2)
            elif src["bare"]:
                pass         # an exact repetition: no comments attached
            else:
                return
            if not self.lines or self.lines[-1]["k"] == "com":
                self.line("blank", "")
        else:
            if pin:
                x = dict(angle=True, dir=["linux"], base="p%d.h" % self.uid())
            else:
                x = self.inc_name()
            before = len(self.lines)
            self.comments(0.2)
            bare = len(self.lines) == before and (not self.lines or self.lines[-1]["k"] != "com")
            key = self.key(x)
            text = rng.choice(["#include %s", "#include %s", "#include %s", "# include %s", "#  include  %s", "  #include %s"]) % key
            if rng.random() < 0.25:
                text += "  // u%d" % self.uid()
            x.update(key=key, bare=bare, assoc=False, mark=False)
            if not x["angle"] and rng.random() < 0.03:
                text = "#include %s  // IWYU pragma: associated u%d" % (key, self.uid())
                x["assoc"] = x["mark"] = True
            elif rng.random() < 0.08:
                text = rng.choice(["#include %s  // IWYU pragma: %s u%d", "#include %s /* IWYU pragma: %s %d */"]) % (
                    key, rng.choice(["keep", "export"]), self.uid())
                x["mark"] = True
        first = self.first_inc
        self.first_inc = False
        n = self.line("inc", text)
        x = dict(x, k="inc", first=n, last=n, text=text, isfirst=first, pin=pin, rm=False, seen=True, path=[], gen=[])
        if dup_of is None:
            x["cls"] = len(self.units) + 1
        self.units.append(x)

    def fwd(self, seen=True):
        rng = self.rng
        self.comments(0.15)
        u = self.uid()
        gen = []
        form = rng.choice(["plain", "plain", "struct", "tpl", "tpl2", "oneline", "oneline2", "enum"])
        if not seen:
            form = rng.choice(["plain", "struct"])
        if form == "plain":
            texts = ["class F%d;" % u]
        elif form == "struct":
            texts = ["  struct F%d;  // c%d" % (u, u)]
        elif form == "tpl":
            texts = ["template <typename T%d>" % u, "class F%d;" % u]
        elif form == "tpl2":
            texts = ["template <typename A%d, int B> struct F%d;" % (u, u)]
        elif form == "enum":
            texts = ["enum class F%d : int;" % u]
        else:
            gen = ["g%d" % rng.randint(1, 3)] if form == "oneline" else ["g%d" % rng.randint(1, 3), "h%d" % rng.randint(1, 2)]
            if form == "oneline" and rng.random() < 0.3:
                gen = ["g1::h2"]
            texts = ["".join("namespace %s { " % g for g in gen) + "class F%d;" % u + " }" * len(gen)]
        first = len(self.lines) + 1
        if not seen:
            for t in texts:
                self.line("code", t)
            return
        for t in texts:
            n = self.line("fwd", t)
        decl = texts[-1].strip()
        if gen:
            decl = "class F%d;" % u
        self.units.append(dict(k="fwd", first=first, last=n, text=" ".join(t.strip() for t in texts), cls=len(self.units) + 1,
                               rm=False, pin=False, seen=True, gen=gen, path=list(self.path) + gen, decl=decl,
                               angle=False, dir=[], base="", assoc=False, mark=False, isfirst=False, key="", bare=False,
                               texts=texts))

    def blank(self, p=0.5):
        if self.rng.random() < p:
            for _ in range(self.rng.choice([1, 1, 1, 2])):
                self.line("blank", self.rng.choice(["", "", "", "  "]))

    def code(self):
        rng = self.rng
        u = self.uid()
        kind = rng.choice(["var", "var", "func", "define", "macro", "using", "pragma", "push", "struct", "externc", "ccom", "static", "undef"])
        if kind == "var":
            self.line("code", "int v%d;" % u)
        elif kind == "static":
            self.line("code", "static const char* s%d = \"#include <x>\";  // class C;" % u)
        elif kind == "undef":
            self.line("code", "#undef U%d" % u)
        elif kind == "func":
            self.line("code", "void f%d() {" % u, mid=True)
            for i in range(rng.randint(0, 2)):
                self.line("code", "  g%d_%d();" % (u, i), mid=True)
            self.line("code", "}  // end %d" % u)
        elif kind == "struct":
            self.line("code", "struct S%d {" % u, mid=True)
            self.line("code", "  int m%d;" % u, mid=True)
            self.line("code", "};  // end %d" % u)
        elif kind == "define":
            self.line("code", "#define D%d 1" % u)
        elif kind == "macro":
            self.line("code", "#define M%d(x) \\" % u, mid=True)
            self.line("code", "  m%d(x)" % u)
        elif kind == "using":
            self.line("code", "using a::b%d;" % u)
        elif kind == "pragma":
            self.line("code", "#pragma GCC diagnostic ignored \"-W%d\"" % u)
        elif kind == "push":
            self.line(rng.choice(["push"]), "#pragma GCC diagnostic push  // %d" % u)
            if rng.random() < 0.5:
                self.line("pop", "#pragma GCC diagnostic pop  // %d" % u)
        elif kind == "externc":
            self.line("code", "extern \"C\" int e%d(void);" % u)
        elif kind == "ccom":
            self.line("code", "/* c%d */ int w%d;" % (u, u))

    def block(self, depth, inactive=False):
        """A few elements."""
        rng = self.rng
        for _ in range(rng.randint(1, 3 if depth else self.o.get("elements", 5))):
            kind = rng.choices(["incs", "fwds", "code", "cond", "ns", "com"],
                               weights=[5, 2.5, 2, 2 if depth < 3 else 0, 1.5 if depth < 3 else 0, 0.7])[0]
            if kind == "incs":
                if self.path and rng.random() < 0.7:
                    kind = "fwds"
                else:
                    what = rng.choice(["exports", "keep"]) if rng.random() < .1 else ""
                    if what:
                        self.line("begin", rng.choice(["// IWYU pragma: begin_%s", "/* IWYU pragma: begin_%s */"]) % what)
                    for _ in range(rng.choice([1, 2, 3, 4, 6])):
                        r = rng.random()
                        if r < self.o.get("pin", 0.05):
                            self.include(pin=True)
                        elif r < 0.2 and self.units and self.o.get("dups", True):
                            self.include(dup_of=rng.randint(max(1, len(self.units) - 6), len(self.units)))
                        else:
                            self.include()
                        self.blank(0.15)
                    if what:
                        self.line("end", "// IWYU pragma: end_%s" % what)
            if kind == "fwds":
                for _ in range(rng.choice([1, 2, 3])):
                    self.fwd(seen=not inactive and not self.o.get("sort"))
                    self.blank(0.15)
            elif kind == "code":
                for _ in range(rng.randint(1, 2)):
                    self.code()
            elif kind == "com":
                self.comments(1)
            elif kind == "cond":
                u = self.uid()
                self.comments(0.2)
                off = rng.random() < 0.3
                self.line("if", rng.choice(["#if C%d", "#ifdef C%d", "#ifndef C%d", "# if defined(C%d)", "  #if C%d  // why"]) % u)
                self.ifs += 1
                if rng.random() < 0.9:
                    self.block(depth + 1, inactive or off)
                while rng.random() < 0.35:
                    self.line("else", rng.choice(["#else  // %d", "#elif E%d", "# else /* %d */"]) % self.uid())
                    if rng.random() < 0.9:
                        self.block(depth + 1, True)
                self.ifs -= 1
                self.line("endif", rng.choice(["#endif  // C%d", "# endif /* C%d */"]) % u)
            elif kind == "ns":
                self.namespace(depth, inactive)
            self.blank()

    def namespace(self, depth, inactive):
        rng = self.rng
        self.comments(0.2)
        u = self.uid()
        style = rng.choice(["kr", "kr", "kr", "two", "allman", "mixed", "split", "anon", "cxx17"])
        a = "n%d" % rng.randint(1, 3)
        b = "m%d" % rng.randint(1, 3)
        if style == "kr":
            self.line("ns", "namespace %s {  // o%d" % (a, u), 1, [a])
            names = [a]
        elif style == "anon":
            self.line("ns", "namespace {  // o%d {" % u, 1, [""])
            names = [""]
        elif style == "cxx17":
            names = ["%s::%s" % (a, b)]
            self.line("ns", "namespace %s {  // o%d" % (names[0], u), 1, names)
        elif style in ("two", "split"):
            self.line("ns", "namespace %s { namespace %s {  // o%d" % (a, b, u), 2, [a, b])
            names = [a, b]
        elif style == "allman":
            self.line("ns", "namespace %s  // o%d" % (a, u), 0, [])
            self.line("cont", "{  // p%d" % u, 1, [a])
            names = [a]
        else:
            self.line("ns", "namespace %s { namespace %s  // o%d" % (a, b, u), 1, [a])
            self.line("cont", "{  // p%d" % u, 1, [b])
            names = [a, b]
        self.path += names
        if rng.random() < 0.9:
            if rng.random() < 0.6:
                for _ in range(rng.choice([1, 2, 3])):
                    self.fwd(seen=not inactive and not self.o.get("sort"))
                    self.blank(0.2)
            else:
                self.block(depth + 1, inactive)
        if len(names) == 2 and (style == "split" or rng.random() < 0.4):
            self.line("nsend", "}  // e%d" % self.uid(), 1)
            if rng.random() < 0.3:
                self.path.pop()
                self.block(depth + 1, inactive)
                self.path.append("?")
            self.line("nsend", "}  // e%d }" % self.uid(), 1)
        else:
            self.line("nsend", "} " * (len(names) - 1) + "}  // e%d" % self.uid(), len(names))
        del self.path[-len(names):]

    # -- the whole file
    def build(self):
        rng = self.rng
        top = rng.random()
        if top < 0.45:
            self.comments(1)
            self.blank(0.6)
        elif top < 0.55:
            self.blank(1)
        guard = rng.choice(["none", "none", "none", "ifndef", "ifndef", "once", "wide", "wideelse", "broken"]) \
            if self.o.get("guard") is None else self.o["guard"]
        if guard == "once":
            self.line("once", "#pragma once  // %d" % self.uid())
        elif guard in ("ifndef", "broken"):
            u = self.uid()
            self.line("if", rng.choice(["#ifndef G%d_H", "#if !defined(G%d_H)"]) % u)
            self.line("gdef", rng.choice(["#define G%d_H", "# define G%d_H"]) % u)
        elif guard in ("wide", "wideelse"):
            self.line("if", "#ifdef W%d" % self.uid())
        self.blank(0.5)
        self.block(0)
        if guard == "wideelse":
            self.line("else", "#else  // %d" % self.uid())
            self.block(1, True)
        if guard in ("ifndef", "broken", "wide", "wideelse"):
            self.line("endif", "#endif  // %d" % self.uid())
        if guard == "broken":
            self.code()
        if rng.random() < 0.2:
            self.comments(1)
        return self

    # -- advice
    def advise(self):
        rng = self.rng
        p = rng.choice([0, 0.2, 0.5, 0.8, 1])
        for u in self.units:
            if rng.random() < p and u["seen"]:
                u["rm"] = True
        # of equal lines, the analyser removes the others
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            if rng.random() < 0.65:
                x = self.inc_name()
                x.update(key=self.key(x), assoc=False, isfirst=False)
                if "linux/" in x["key"]:
                    continue
                self.adds.append(dict(x, k="inc", path=[], text="#include " + x["key"]))
            else:
                u = self.uid()
                path = list(rng.choice([[], ["g1"], ["n1"], ["n1", "m1"], ["n2", "m1"], ["n3"], [""], ["n1::m1"], ["n1", "m2", "x"], ["n2::m2"]]))
                decl = rng.choice(["class A%d;", "struct A%d;", "template <typename T> class A%d;", "enum class A%d : int;",
                                   "template <class T, int N> struct A%d;"]) % u
                text = "".join("namespace %s { " % c if c else "namespace { " for c in path) + decl + " }" * len(path)
                self.adds.append(dict(k="fwd", path=path, decl=decl, text=text, angle=False, dir=[], base="", assoc=False,
                                      isfirst=False, key=""))
        return self

    def fwd_full(self, u):
        """As the analyser prints an existing forward declaration."""
        body = " ".join(t.strip() for t in u["texts"])
        body = re.sub(r"\s*//.*", "", body)
        if u["gen"]:
            body = u["decl"]
        path = u["path"]
        return "".join("namespace %s { " % c if c else "namespace { " for c in path) + body + " }" * len(path)

    def report(self, name):
        rng = self.rng
        out = ["%s should add these lines:" % name]
        total = []
        self.why = {}
        for a in self.adds:
            why = rng.choice(["  // for X%d" % self.uid(), ""]) if a["k"] == "inc" else ""
            out.append(a["text"] + why)
            if a["k"] == "inc":
                self.why[a["key"]] = why
                total.append(a["text"] + why)
            else:
                total.append(a["text"])
        out += ["", "%s should remove these lines:" % name]
        for u in self.units:
            t = u["text"] if u["k"] == "fwd" else "#include " + u["key"]
            if u["k"] == "fwd":
                t = self.fwd_full(u)
            if u["rm"]:
                out.append("- %s  // lines %d-%d" % (t, u["first"], u["last"]))
            elif u["k"] == "fwd" or rng.random() < 0.8:
                if u["k"] == "inc":
                    why = rng.choice(["  // for Y%d" % self.uid(), ""])
                    if self.why.get(u["key"]) is not None:
                        why = self.why[u["key"]]
                    self.why[u["key"]] = why
                    # "// lines" only sometimes for includes
                    total.append(t + why if rng.random() < 0.5 else "%s  // lines %d-%d%s" % (
                        t, u["first"], u["last"], why and ", " + why.strip()[3:] if False else ""))
                    if total[-1] != t + why:
                        self.why[u["key"]] = None
                else:
                    total.append("%s  // lines %d-%d" % (t, u["first"], u["last"]))
        rng.shuffle(total)
        out += ["", "The full include-list for %s:" % name] + total + ["---", ""]
        return "\n".join(out)

    def text(self):
        return "".join(l["text"] + "\n" for l in self.lines)

    # -- reading the result
    def tokens(self, result, comments):
        """What the lines of the fixed file are, in terms of this document."""
        bytext = {}
        for i, l in enumerate(self.lines, 1):
            if l["k"] not in ("blank",):
                bytext.setdefault(l["text"].rstrip(), []).append(i)
        unit_at = {}
        for n, u in enumerate(self.units, 1):
            for i in range(u["first"], u["last"] + 1):
                unit_at[i] = n
        used = set()
        toks = []
        gen = []
        lines = [l.rstrip() for l in result.splitlines()]
        orig_ns = {i for i, l in enumerate(self.lines, 1) if l["k"] in ("ns", "nsend", "cont")}

        def find_fwd(decl, gen):
            for n, u in enumerate(self.units, 1):
                if u["k"] == "fwd" and u["gen"] == gen and u["decl"] == decl:
                    return dict(t="unit", us=[n], txt="same")
            for n, a in enumerate(self.adds, 1):
                if a["k"] == "fwd" and a["decl"] == decl:
                    return dict(t="add", a=n, gen=list(gen), txt="same")
            return None

        p = 0
        while p < len(lines):
            t = lines[p]
            p += 1
            if not t.strip():
                toks.append(dict(t="blank"))
                continue
            cand = [i for i in bytext.get(t, []) if i not in used] or bytext.get(t, [])
            if cand:
                i = cand[0]
                n = unit_at.get(i)
                if n is None:
                    used.add(i)
                    toks.append(dict(t="line", i=i))
                    continue
                u = self.units[n - 1]
                if u["k"] == "inc":
                    toks.append(dict(t="unit", us=[unit_at[c] for c in bytext[t]], txt="same"))
                    continue
                if not u["gen"]:
                    ok = [x.rstrip() for x in u["texts"]] == lines[p - 1:p - 1 + len(u["texts"])]
                    if ok:
                        p += len(u["texts"]) - 1
                        used.add(i)
                        toks.append(dict(t="unit", us=[n], txt="same"))
                    else:
                        toks.append(dict(t="other"))
                    continue
            m = re.match(r'\s*#\s*include\s+([<"][^">]+[>"])', t)
            if m:
                key = m.group(1)
                why = self.why.get(key) or ""
                txt = "same" if t == "#include " + key else "iwyu" if t == "#include " + key + why else "bad"
                a = [n for n, a in enumerate(self.adds, 1) if a["key"] == key]
                us = [n for n, u in enumerate(self.units, 1) if u["key"] == key]
                if a:
                    toks.append(dict(t="add", a=a[0], gen=[], txt=txt))
                elif us and txt == "iwyu" and why:
                    toks.append(dict(t="unit", us=us, txt=txt))
                else:
                    toks.append(dict(t="other"))
                continue
            m = re.match(r"namespace ([^{ ]*) ?\{$", t)
            if m and p < len(lines):
                gen.append(m.group(1))
                continue
            m = re.match(r"}  // namespace ?(.*)$", t)
            if m and gen and gen[-1] == m.group(1):
                gen.pop()
                continue
            # declarations: below generated namespaces, or all on one line
            g, decl = list(gen), t
            m = re.match(r"((?:namespace [^{]*\{ )+)([^{}]*)((?: \})+)$", t)
            if m:
                g += [x.strip() for x in re.findall(r"namespace ([^{]*)\{", m.group(1))]
                decl = m.group(2)
            tok = find_fwd(decl, g)
            toks.append(tok or dict(t="other"))
        if gen:
            toks.append(dict(t="other"))
        return toks

    def scenario(self, toks):
        def srt(key):
            return re.sub(r"\s+", "", "#include" + key).replace("-inl.h", "_inl.h")
        keys = sorted({srt(x["key"]) for x in self.units + self.adds})
        rank = {k: i for i, k in enumerate(keys)}

        def rec(x, unit):
            r = dict(k=x["k"], angle=x["angle"], dir=x["dir"], base=x["base"], assoc=x["assoc"], mark=x.get("mark", False),
                     first=x["first"] if unit else x["isfirst"], rank=rank[srt(x["key"])], path=x["path"])
            if unit:
                r.update(last=x["last"], cls=x["cls"], rm=x["rm"], pin=x["pin"], isfirst=x["isfirst"])
            return r

        us = [rec(u, True) for u in self.units]
        ads = [rec(a, False) for a in self.adds]
        for a in ads:
            a["isfirst"] = a.pop("first")
        idle = not self.o["sort"] and not ads and (self.safe or not any(u["rm"] for u in us))
        return dict(idle=idle, lines=[dict(k=l["k"], d=l["d"], nm=l["nm"], mid=l["mid"]) for l in self.lines],
                    units=us, adds=ads, safe=self.safe, reorder=self.reorder, quoted=self.quoted,
                    comments=self.o.get("comments", False), project=self.project,
                    file=dict(dir=self.o["dir"], base=self.o["base"]), toks=toks)


# --------------------------------------------------------------------------
# Running documents

STEMS2 = ["foo", "foo_test", "bar_unittest", "x_regtest", "alpha", "util"]
FDIRS = [[], ["base"], ["src", "internal"], ["src", "public"], ["proj", "x"], ["lib", "internal", "q"]]


def rand_doc(rng, sort=False, **force):
    """A random document with its advice and a set of options."""
    stem = rng.choice(STEMS2)
    header = rng.random() < 0.25
    ext = rng.choice([".h", ".hpp", ".hh"]) if header else rng.choice([".cc", ".cc", ".cpp", ".c", ".cxx", ".C", ".CC"])
    o = dict(stem=stem, dir=rng.choice(FDIRS), base=stem + ext, sort=sort,
             comments=not sort and rng.random() < 0.2,
             pin=rng.choice([0, 0, 0.1]), own=rng.choice([0, 0.1, 0.3]), elements=rng.choice([2, 4, 7]))
    o.update(force)
    doc = Doc(rng, o)
    safe = rng.random() < 0.5
    doc.safe = header and safe
    doc.reorder = rng.random() < 0.5
    doc.quoted = rng.random() < 0.3
    doc.project = rng.choice(["", "", "<tld>", "proj", "base"])
    doc.keepns = rng.random() < 0.2
    doc.noblank = rng.random() < 0.2
    doc.args = []
    if sort:
        doc.args.append("--reorder" if doc.reorder else "--noreorder")
    else:
        if doc.reorder or rng.random() < 0.3:
            doc.args.append("--reorder" if doc.reorder else "--noreorder")
        if doc.keepns:
            doc.args.append("-m")
        doc.args.append("--comments" if o["comments"] else "--nocomments")
    if not safe:
        doc.args.append("--nosafe_headers")
    elif rng.random() < 0.5:
        doc.args.append("--safe_headers")
    if doc.quoted:
        doc.args.append("--quoted_includes_first")
    if doc.project:
        doc.args.append("--separate_project_includes=" + doc.project)
    if doc.noblank:
        doc.args.append("--noblank_lines")
    doc.build()
    doc.why = {}
    if not sort:
        doc.advise()
    doc.name = "/".join(o["dir"] + [o["base"]])
    doc.rep = None if sort else doc.report(doc.name)
    return doc


def run_doc(doc, twice=False):
    """-> dict(rc, err, text[, again]) of the real fixer."""
    d = scratch()
    write_files(d, {doc.name: doc.text()})
    path = os.path.join(d, doc.name)
    args = list(doc.args)
    if doc.o["sort"]:
        args = ["--sort_only"] + args + [doc.name]
    rc, out, err = fix(d, doc.rep or "", args)
    res = dict(rc=rc, err=err[-1500:], text=open(path, "rb").read().decode("utf-8", "replace"))
    if twice:
        if doc.o["sort"]:
            rc, out, err = fix(d, "", args)
        else:
            rc, out, err = fix(d, "\n(%s has correct #includes/fwd-decls)\n" % doc.name, args)
        res["again"] = (rc, err[-1500:], open(path, "rb").read().decode("utf-8", "replace"))
    shutil.rmtree(d, ignore_errors=True)
    return res


TRACE_CFG = """INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
"""


def judge(ck, docs, results):
    """The broken clauses per document, by the specification."""
    scs = [doc.scenario(doc.tokens(r["text"], doc.o["comments"])) for doc, r in zip(docs, results)]
    recs = tlc_batch(ck, "FixTrace", TRACE_CFG, scs)
    bad = {r["id"]: set(r["bad"]) for r in recs}
    if len(bad) != len(scs):
        raise CheckError("FixTrace judged %d of %d" % (len(bad), len(scs)))
    settled = {r["id"]: r["settled"] for r in recs}
    for i, doc in enumerate(docs):
        doc.settled = settled[i + 1]
    return [bad[i + 1] for i in range(len(scs))]


def doc_replay(doc, r):
    return dict(name=doc.name, args=doc.args, sort=doc.o["sort"], file=doc.text(), report=doc.rep, result=r["text"],
                rc=r["rc"], stderr=r["err"])


def edit_body(clauses, sort_share, n_quick, n_thorough, crash=True, **force):
    def body(ck):
        n = n_thorough if THOROUGH else n_quick
        docs = [rand_doc(ck.rng, sort=ck.rng.random() < sort_share, **force) for _ in range(n)]
        results = pmap(run_doc, docs)
        bads = judge(ck, docs, results)
        for doc, r, bad in zip(docs, results, bads):
            ck.evaluations += 1
            ck.traces += 1
            if r["text"] != doc.text():
                ck.nontrivial(doc.text() + (doc.rep or ""))
            for c in ("sort" if doc.o["sort"] else "fix",):
                ck.count(c)
            bad = bad & clauses
            if r["rc"] < 0 or "Traceback" in r["err"]:
                bad = bad | ({"crash"} if crash else set())
            if bad:
                r2 = run_doc(doc)
                if r2["text"] == r["text"] and r2["rc"] == r["rc"]:
                    ck.violation("%s: %s" % (",".join(sorted(bad)), describe(doc, r)), doc_replay(doc, r))
            else:
                ck.sample(dict(before=doc.text()[:600], after=r["text"][:600]), 1)
        ck.rule = "random documents and advice; non-trivial: the fixer changed the file"
    return body


def describe(doc, r):
    return "%s %s\n--- before\n%s--- report\n%s\n--- after\n%s--- stderr %s" % (
        doc.name, " ".join(doc.args), doc.text(), doc.rep, r["text"], r["err"][-300:])


def order_cases():
    """Inputs on which sorting twice is known to differ from sorting once."""
    return [
        ("comment-of-file", ["--nosafe_headers", "--quoted_includes_first"], "bar.cc", "// a\n#include <z>\n// note\n#include \"b\"\n#include \"b\"\nint v;\n"),
        ("own-header-by-position", ["--reorder"], "src/internal/bar_unittest.cc",
         "#include \"util.inc\"\n#include \"proj/x/bar.h\"\n\nint v;\n"),
    ]


def sort_twice(name, text, args):
    d = scratch()
    write_files(d, {name: text})
    res = []
    for _ in range(2):
        fix(d, "", ["--sort_only"] + list(args) + [name])
        res.append(open(os.path.join(d, name)).read())
    shutil.rmtree(d, ignore_errors=True)
    return res


def f05(ck):
    n = 6000 if THOROUGH else 800
    docs = [rand_doc(ck.rng, sort=ck.rng.random() < 0.67) for _ in range(n)]
    results = pmap(lambda d: run_doc(d, True), docs)
    bads = judge(ck, docs, results)
    for doc, r, bad in zip(docs, results, bads):
        ck.evaluations += 1
        ck.traces += 1
        ck.count("sort" if doc.o["sort"] else "fix")
        if r["text"] != doc.text():
            ck.nontrivial(doc.text() + (doc.rep or ""))
        bad = bad & {"order"}
        if r["rc"] < 0 or "Traceback" in r["err"]:
            bad = bad | {"crash"}
        if doc.settled and r["again"][2] != r["text"]:
            bad = bad | {"again"}
        if bad and {k: v for k, v in run_doc(doc, True).items() if k != "err"} == {
                k: v for k, v in r.items() if k != "err"}:
            what = "%s: %s" % (",".join(sorted(bad)), describe(doc, r))
            if "again" in bad:
                what += "\n--- again\n" + r["again"][2]
            ck.violation(what, doc_replay(doc, r))
        elif not bad:
            ck.sample(dict(before=doc.text()[:600], after=r["text"][:600]), 1)
    for label, args, name, text in order_cases():
        once, again = sort_twice(name, text, args)
        ck.evaluations += 1
        if once != again:
            ck.violation("again: %r -> %r -> %r" % (text, once, again), dict(name=name, file=text),
                         fingerprint="twice:" + label)
    ck.rule = "random documents, two thirds sorted only; non-trivial: the fixer changed the file"


# --------------------------------------------------------------------------
# Whole runs: reading and merging reports, selecting and writing files

RUN_NAMES = ["QA.cc", "subQ/QB.cc", "QC.h", "subQ/QD.hpp", "QE", "QF.cpp"]
ARROW = 9


def rand_run(rng, mode):
    """mode: "merge" (F01) or "select" (F06)."""
    sel = mode == "select"
    nf = rng.randint(2, 4)
    names = rng.sample(RUN_NAMES, nf)
    files = []
    for f, name in enumerate(names, 1):
        m = rng.randint(1, 5)
        srt = not sel or rng.random() < 0.7 or m < 2
        latin = rng.random() < (0.15 if sel else 0)
        lines = ['#include "l%d_%d.h"' % (f, i) for i in range(1, m + 1)]
        if not srt:
            lines[rng.randint(1, m - 1)] = "#include <z%d>" % f
        pre = rng.randint(0, 2)
        code = ["// top", "", "int u%d;" % f][:pre] if pre else []
        inc = list(range(len(code) + 1, len(code) + m + 1))
        text = code + lines + ["", "int v%d;%s" % (f, "  // \xe9" if latin else "")]
        st = rng.choices(["ok", "missing", "dir", "dangling"], weights=[20, 1, 1, 1] if sel else [1, 0, 0, 0])[0]
        files.append(dict(inc=inc, n=len(text), st=st, header=not name.endswith((".cc", ".cpp")), sorted=srt,
                          cant=[ARROW] if latin else [], text=text, latin=latin, name=name))
    opts = dict(named=[], anynamed=False, only="", ignore="", dry=False, sort=False, safe=False)
    args = []
    base = ""
    if sel:
        if rng.random() < 0.4:
            opts["anynamed"] = True
            opts["named"] = rng.sample(range(1, nf + 1), rng.randint(1, nf))
        if rng.random() < 0.3:
            opts["only"] = rng.choice(["QA", "subQ", ".h", ".cc", "Q"])
        if rng.random() < 0.3:
            opts["ignore"] = rng.choice(["QA", "subQ", ".h", ".cc", "QB"])
        opts["dry"] = rng.random() < 0.15
        opts["sort"] = opts["anynamed"] and rng.random() < 0.3
        opts["safe"] = rng.random() < 0.7
        base = rng.choice(["", "", "", "BD", "ABS"])
    lines = []

    def spell(f):
        n = names[f - 1]
        r = rng.random()
        if r < 0.7:
            return n
        if r < 0.8:
            return "./" + n
        if r < 0.9:
            return "subQ/../" + n
        return "//".join(n.split("/"))

    def head(k, f, nm):
        lines.append(dict(k=k, f=f, nm=nm, x=0, a=0, b=0))

    def item(x=0, a=0, b=0):
        lines.append(dict(k="item", f=0, nm="", x=x, a=a, b=b))

    stale = rng.random() < (0.3 if sel else 0)
    arrow = sel and rng.random() < 0.3

    def report(f, part=None):
        start = len(lines)
        nm = spell(f)
        head("add", f, nm)
        for _ in range(rng.choice([0, 1, 1, 2])):
            item(x=rng.choice([1, 2, 3, 4, ARROW] if arrow else [1, 2, 3, 4]))
        head("rem", f, nm)
        inc = files[f - 1]["inc"]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            a = rng.choice(inc)
            b = a + 1 if a + 1 in inc and rng.random() < 0.2 else a
            if stale and rng.random() < 0.2:
                a = b = rng.choice([files[f - 1]["n"], files[f - 1]["n"] + 1, files[f - 1]["n"] + 20])
            item(x=5, a=a, b=b)
        if part == "noline":
            item(x=5)
        head("tot", f, nm)
        for a in inc:
            if rng.random() < 0.5:
                b = a
                if stale and rng.random() < 0.1:
                    b = a = files[f - 1]["n"] + rng.choice([0, 1])
                item(x=6, a=a, b=b)
        head("end", 0, "")
        if part == "cut":
            del lines[rng.randint(start + 1, len(lines) - 1):]
        elif part == "tail":
            del lines[start]
        elif part == "swap":
            g = rng.choice([x for x in range(1, nf + 1) if x != f])
            for l in lines[start:]:
                if l["k"] in ("rem", "tot") and rng.random() < 0.7:
                    l["f"], l["nm"] = g, names[g - 1]

    if not opts["sort"]:
        for _ in range(rng.choice([1, 2, 3, 5, 7])):
            f = rng.choice([1, 1, 2] + list(range(1, nf + 1)))
            r = rng.random()
            if r < 0.72:
                report(f)
            elif r < 0.84:
                head("ok", f, spell(f))
            elif r < 0.9:
                report(f, rng.choice(["cut", "tail", "swap", "noline"]))
            else:
                item(x=7)
    for l in lines:
        l["raw"] = l["nm"]
        if base and l["nm"]:
            l["nm"] = os.path.normpath(l["nm"])
    return dict(lines=lines, files=files, opts=opts, base=base, seed=rng.random())


def run_text(sc):
    """The report as it is read."""
    import random as _r
    rng = _r.Random(sc["seed"])
    out = []
    sec = ""
    for l in sc["lines"]:
        nm = l["raw"]
        k = l["k"]
        if k in ("add", "rem", "tot", "ok"):
            sec = k
        if k == "add":
            out.append("%s should add these lines:" % nm)
        elif k == "rem":
            if rng.random() < 0.8:
                out.append("")
            out.append("%s should remove these lines:" % nm)
        elif k == "tot":
            if rng.random() < 0.8:
                out.append("")
            out.append("The full include-list for %s:" % nm)
        elif k == "ok":
            out.append("(%s has correct #includes/fwd-decls)" % nm)
        elif k == "end":
            out.append("---")
            sec = ""
        elif l["a"]:
            out.append('%s#include "y%d.h"  // lines %d-%d' % ("- " if sec == "rem" else "", l["x"], l["a"], l["b"]))
        elif sec == "add":
            out.append('#include "x%s.h"%s' % ("\u2192" if l["x"] == ARROW else l["x"], rng.choice(["", "  // for T", "  // for T, U"])))
        elif sec == "rem":
            out.append('- #include "y%d.h"' % l["x"])
        else:
            out.append(rng.choice(["warning: something", "In file included from x.cc:3:", "  ", '#include "z.h"',
                                   "x.cc:1:2: error: no #includes", "should add these lines"]))
    return "\n".join(out) + ("\n" if out else "")


def play_run(sc):
    d = scratch()
    base = {"": "", "BD": "BD", "ABS": os.path.join(d, "BD")}[sc["base"]]
    root = os.path.join(d, base)
    os.makedirs(os.path.join(root, "subQ"), exist_ok=True)
    orig = {}
    for f in sc["files"]:
        p = os.path.join(root, f["name"])
        if f["st"] == "ok":
            data = "".join(l + "\n" for l in f["text"]).encode("latin-1")
            with open(p, "wb") as fh:
                fh.write(data)
            os.utime(p, (1000, 1000))
            orig[f["name"]] = data
        elif f["st"] == "dir":
            os.makedirs(p)
        elif f["st"] == "dangling":
            os.symlink("nowhere", p)
    o = sc["opts"]
    args = []
    if base:
        args.append("--basedir=" + base)
    if not o["safe"]:
        args.append("--nosafe_headers")
    if o["only"]:
        args.append("--only_re=" + o["only"].replace(".", "[.]"))
    if o["ignore"]:
        args.append("--ignore_re=" + o["ignore"].replace(".", "[.]"))
    if o["dry"]:
        args.append("--dry_run")
    if o["sort"]:
        args.append("--sort_only")
    for i in o["named"]:
        n = sc["files"][i - 1]["name"]
        if base and not o["sort"]:
            n = os.path.join(root if sc["base"] == "ABS" else base, n)
        args.append(n)
    before = tree(d)
    rc, out, err = fix(d, run_text(sc), args)
    got = []
    for i, f in enumerate(sc["files"], 1):
        p = os.path.join(root, f["name"])
        r = dict(written=False, left=[], adds=[], other=[])
        if f["st"] == "ok":
            data = open(p, "rb").read()
            r["written"] = os.stat(p).st_mtime != 1000
            lines = data.decode("utf-8" if not f["latin"] else "latin-1").splitlines()
            texts = {l: n for n, l in enumerate(f["text"], 1)}
            code = [l for n, l in enumerate(f["text"], 1) if n not in f["inc"]]
            for l in lines:
                m = re.match('#include "x([0-9]+|\u2192)[.]h"$', l)
                if m:
                    r["adds"].append(ARROW if m.group(1) == "\u2192" else int(m.group(1)))
                elif texts.get(l) in f["inc"]:
                    r["left"].append(texts[l])
                elif l.strip() and l not in code:
                    r["other"].append(l)
            if [l for l in lines if l in code and l] != [l for l in code if l]:
                r["other"].append("code lines differ")
            if not r["written"] and data != orig[f["name"]]:
                r["other"].append("changed but not written?")
            r["sorted"] = is_sorted(r["left"], f)
            r["left"].sort()
            r["adds"].sort()
        got.append(r)
    extra = sorted(set(tree(d)) ^ set(before))
    shutil.rmtree(d, ignore_errors=True)
    return dict(rc=rc, err=err[-800:], files=got, extra=extra, args=args)


def tree(d):
    return [os.path.relpath(os.path.join(a, n), d) for a, ds, fs in os.walk(d) for n in ds + fs]


def is_sorted(left, f):
    """<z> before the others; the others as they were."""
    ang = [n for n in left if "<" in f["text"][n - 1]]
    quo = [n for n in left if "<" not in f["text"][n - 1]]
    return left == ang + quo


def run_diff(sc, exp, got):
    if got["rc"] != 0 or "Traceback" in got["err"]:
        return "exit status %d: %s" % (got["rc"], got["err"][-400:])
    if got["extra"]:
        return "files created or deleted: %s" % got["extra"]
    for f, e, g in zip(sc["files"], exp["files"], got["files"]):
        if f["st"] != "ok":
            continue
        e = dict(e, left=sorted(e["left"]), adds=sorted(e["adds"]))
        if g["other"]:
            return "%s: %s" % (f["name"], g["other"])
        if g["written"] != e["written"]:
            return "%s: %s" % (f["name"], "written" if g["written"] else "not written")
        if g["left"] != e["left"] or g["adds"] != e["adds"]:
            return "%s: expected includes of lines %s and additions %s; got %s and %s" % (
                f["name"], e["left"], e["adds"], g["left"], g["adds"])
        if e["written"] and e["sorted"] and not g["sorted"]:
            return "%s: not sorted" % f["name"]
    return None


def run_body(mode, n_quick, n_thorough):
    def body(ck):
        for ml, whole, only, dry, named in [(2, "FALSE", "", "FALSE", "{}"), (3, "TRUE", "", "FALSE", "{}"),
                                            (3, "TRUE", "q", "FALSE", "{}"), (3, "TRUE", "p", "TRUE", "{1}")] + (
                                                [(4, "TRUE", "", "FALSE", "{}")] if THOROUGH else []):
            model_check(ck, "FixRunDesign", """INIT Init
NEXT Next
INVARIANTS MergeLaw WriteLaw
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d
Whole = %s
Only = "%s"
Dry = %s
Named = %s
""" % (ml, whole, only, dry, named))
        scs = [rand_run(ck.rng, mode) for _ in range(n_thorough if THOROUGH else n_quick)]
        recs = tlc_batch(ck, "FixRunTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", [
            dict(lines=s["lines"], opts=s["opts"],
                 files=[{k: f[k] for k in ("inc", "n", "st", "header", "sorted", "cant")} for f in s["files"]]) for s in scs])
        exp = {r["id"]: r for r in recs}
        if len(exp) != len(scs):
            raise CheckError("FixRun ended %d of %d scenarios" % (len(exp), len(scs)))
        got = pmap(play_run, scs)
        for k, (sc, g) in enumerate(zip(scs, got)):
            e = exp[k + 1]
            ck.evaluations += 1
            ck.traces += 1
            if any(x["written"] for x in e["files"]):
                ck.nontrivial([sc["lines"], sc["opts"], [f["text"] for f in sc["files"]]])
            why = run_diff(sc, e, g)
            if why and run_diff(sc, e, play_run(sc)):
                ck.violation("%s\n%s\n%s\n%s" % (why, g["args"], run_text(sc),
                                                 "\n".join("== %s (%s)\n%s" % (f["name"], f["st"], "\n".join(f["text"]))
                                                           for f in sc["files"])),
                             dict(scenario=sc, report=run_text(sc), expected=e, got=g))
            elif not why:
                ck.sample(dict(report=run_text(sc)[:500], args=g["args"], got=g["files"]), 2)
        ck.rule = "random sequences of whole, cut, mixed and malformed reports; non-trivial: some file is written"
    return body


CHECKS = {
    "F01": run_body("merge", 700, 8000),
    "F06": run_body("select", 700, 8000),
    "F02": edit_body({"code", "comment", "shell", "alter"}, 0.15, 900, 8000),
    "F03": edit_body({"removed", "added", "kept", "dup", "alter"}, 0.05, 900, 8000),
    "F05": f05,
    "F04": edit_body({"zone", "place"}, 0.15, 900, 8000),
}


# --------------------------------------------------------------------------
# Bytes

ENDS = {"lf": b"\n", "crlf": b"\r\n", "cr": b"\r", "none": b""}
ENCODINGS = {"ascii": "ascii", "utf8": "utf-8", "latin": "latin-1", "cp1252": "cp1252", "junk": "junk"}


def rand_bytes(rng):
    enc = rng.choice(["ascii", "ascii", "utf8", "utf8", "latin", "cp1252", "junk"])
    bom = rng.random() < 0.3 and enc in ("ascii", "utf8")
    wide = {"ascii": [""], "utf8": ["\u00e9", "\u2192", "\U0001F600", "\u2028x", "\u0085y"],
            "latin": ["\u00e9", "\u00ff", "\u00e9t\u00e9"], "cp1252": ["\u20ac", "\u201c"], "junk": [""]}[enc]

    def odd():
        return rng.choice(["", "", rng.choice(wide), "\t", "\f", "\v", "\x1c", "  ", "\x00"[:0]])

    def raw(t):
        if enc == "junk":
            return t.encode() + rng.choice([b"", b"\xff\xfe", b"\x81\x8d", b"\xc3(", b"\x90\xe9"])
        return t.encode(ENCODINGS[enc])

    style = rng.choice(["lf", "crlf", "mixed", "mixed2"])

    def end(code):
        if style in ("lf", "crlf"):
            return style
        return rng.choice(["lf", "crlf", "crlf"] + (["cr"] if code and style == "mixed2" else []))

    lines = []
    n = 0
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            n += 1
            lines.append(dict(k="code", raw=raw("// top%d %s" % (n, odd())), e=end(True)))
        lines.append(dict(k="blank", raw=b"", e=end(False)))
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        n += 1
        name = "i%d.h" % n
        t = '#include "%s"' % name if rng.random() < 0.7 else "#include <z%d.h>" % n
        lines.append(dict(k="inc", raw=raw(t + rng.choice(["", "", "  ", "\t", "  // c " + rng.choice(wide)])),
                          e=end(False), rm=rng.random() < 0.4))
    if rng.random() < 0.6:
        lines.append(dict(k="blank", raw=b"", e=end(False)))
    for _ in range(rng.randint(0 if lines else 1, 5)):
        n += 1
        lines.append(dict(k="code", raw=raw("int v%d;%s" % (n, rng.choice(["", "", " ", "\t", "  // " + odd()]))), e=end(True)))
    if lines[-1]["k"] != "blank" and rng.random() < 0.3:
        lines[-1]["e"] = "none"
    for a, b in zip(lines, lines[1:]):
        if a["e"] == "cr" and not b["raw"] and b["e"] == "lf":
            b["e"] = "crlf"                     # or the two would be one line
    adds = [rng.choice(["ascii", "ascii", "wide"]) for _ in range(rng.choice([0, 1, 1, 2]))]
    if rng.random() < 0.6:
        adds = ["ascii"] * len(adds)
    return dict(enc=enc, bom=bom, lines=lines, adds=adds, sort=rng.random() < 0.1,
                args=rng.choice([[], [], ["--noblank_lines"], ["--reorder"]]))


def add_text(i, a):
    return '#include "a%d%s.h"' % (i, "\u4e2d" if a == "wide" else "")


def play_bytes(sc):
    d = scratch()
    p = os.path.join(d, "f.cc")
    data = (b"\xef\xbb\xbf" if sc["bom"] else b"") + b"".join(l["raw"] + ENDS[l["e"]] for l in sc["lines"])
    with open(p, "wb") as f:
        f.write(data)
    if sc["sort"]:
        rc, out, err = fix(d, "", ["-s", "f.cc"] + sc["args"])
    else:
        rep = ["f.cc should add these lines:"] + [add_text(i, a) for i, a in enumerate(sc["adds"], 1)]
        rep += ["", "f.cc should remove these lines:"]
        rep += ['- #include "x"  // lines %d-%d' % (i, i) for i, l in enumerate(sc["lines"], 1) if l.get("rm")]
        rep += ["", "The full include-list for f.cc:", "---", ""]
        rc, out, err = fix(d, "\n".join(rep), sc["args"])
    res = open(p, "rb").read()
    shutil.rmtree(d, ignore_errors=True)
    return rc, err[-800:], data, res


def bytes_tokens(sc, res):
    bom2 = res.startswith(b"\xef\xbb\xbf")
    if bom2:
        res = res[3:]
    exact = {l["raw"]: i for i, l in enumerate(sc["lines"], 1) if l["k"] != "blank"}
    cut = {l["raw"].rstrip(): i for i, l in enumerate(sc["lines"], 1) if l["k"] == "inc"}
    adds = {add_text(i, a).encode(): i for i, a in enumerate(sc["adds"], 1)}
    # \r and \n never occur inside characters of these encodings
    parts = re.split(b"(\r\n|\n|\r)", res)
    toks = []
    olds = [l["e"] for l in sc["lines"] if l["k"] == "blank"]
    names = {v: k for k, v in ENDS.items()}
    for i in range(0, len(parts), 2):
        t = parts[i]
        e = names[parts[i + 1]] if i + 1 < len(parts) else "none"
        if not t and e == "none":
            continue
        if t in exact:
            toks.append(dict(t="line", i=exact[t], e=e))
        elif t in cut:
            toks.append(dict(t="cut", i=cut[t], e=e))
        elif t in adds:
            toks.append(dict(t="add", i=adds[t], e=e))
        elif not t:
            # one of the blank lines that were there, or a new one
            toks.append(dict(t="blank", i=0, e=e))
        else:
            toks.append(dict(t="other", i=0, e=e))
    return toks, bom2


def f07(ck):
    scs = [rand_bytes(ck.rng) for _ in range(8000 if THOROUGH else 900)]
    got = pmap(play_bytes, scs)

    def scen(sc, g):
        toks, bom2 = bytes_tokens(sc, g[3])
        try:
            g[2].decode("utf-8")
            enc = "utf8"
        except UnicodeError:
            enc = "byte"
        return dict(lines=[dict(k=l["k"], e=l["e"]) for l in sc["lines"]], adds=[] if sc["sort"] else sc["adds"],
                    enc=enc, bom=sc["bom"], bom2=bom2, toks=toks)

    def judge_all(items):
        recs = tlc_batch(ck, "FixBytes", "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n", items)
        if len(recs) != len(items):
            raise CheckError("FixBytes judged %d of %d" % (len(recs), len(items)))
        return [set(r["bad"]) for r in recs]

    bads = judge_all([scen(s, g) for s, g in zip(scs, got)])
    for sc, g, bad in zip(scs, got, bads):
        ck.evaluations += 1
        ck.traces += 1
        ck.count(sc["enc"])
        if g[2] != g[3]:
            ck.nontrivial(repr(g[2]))
        if g[0] != 0 or "Traceback" in g[1]:
            bad = bad | {"crash"}
        if bad and play_bytes(sc) == g:
            ck.violation("%s: %r -> %r (%s)" % (sorted(bad), g[2], g[3], g[1][-200:]), dict(scenario=repr(sc)))
        elif not bad:
            ck.sample(dict(before=repr(g[2])[:300], after=repr(g[3])[:300]), 2)
    ck.rule = "random encodings, line endings and odd characters; non-trivial: the file changed"
    ck.assumptions = ["source encodings are ASCII-compatible, as the compiler requires"]


CHECKS["F07"] = f07
