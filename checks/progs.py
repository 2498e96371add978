"""Small programs: their text, their form for the specification, running the
analyser on them and reading its report.  Knows nothing about what is right."""
import os
import re
import subprocess

import lib
import maps
import pieces
import spell


class File:
    def __init__(self, name, hdr=True, written=None):
        self.name = name                      # path as the compiler finds it
        self._at = None
        self.hdr = hdr
        self.sys = name.startswith("sys/")
        self.lines = []
        self.nums = None                      # given line numbers, if known
        self.also = False                     # matched by --check_also
        self.keep = False                     # matched by --keep

    @property
    def q(self):
        """The name under which it is included (system headers lie in sys/)."""
        if self.layout:
            return self.layout.quoted(self.at)
        return "<%s>" % self.name[4:] if self.sys else '"%s"' % self.name

    layout = None

    @property
    def at(self):
        """Where it is, below the working directory."""
        return self._at or self.name

    @at.setter
    def at(self, at):
        self._at = at

    def numbers(self):
        """First and last line number of each line (some take several)."""
        if self.nums:
            return self.nums
        res, n = [], 1
        for L in self.lines:
            h = L.get("h", 1)
            res.append((n, n + h - 1))
            n += h
        return res

    def add(self, k, **kw):
        self.lines.append(dict(k=k, **kw))
        return self


def parts(e):
    """Namespaces and name of an entity."""
    p = e.split("::")
    return p[:-1], p[-1]


def short(e):
    return parts(e)[1]


def macro(L):
    be = L.get("be", "")
    return "#define " + L["e"] + {
        "one": " 1", "sz": " sizeof(%s)" % be, "fn": " (%s(), 1)" % be, "mac": " %s" % be, "pt": "(x) extern %s* x;" % be,
        "asz": "(x) sizeof(x)", "apt": "(x) sizeof(x*)", "nest": "(x) %s(x)" % be, "aone": "(x) 1",
        "paste": "(x) sizeof(%s##x)" % be}[L.get("b", "one")]


class Layout:
    """Where headers are searched for, if not in . and sys."""

    def __init__(self, dirs, main, cwd=""):
        self.dirs = dirs                      # (option, spelling, place below the root of all files)
        self.main = main                      # how the main file is named
        self.cwd = cwd                        # the working directory, below that root

    def quoted(self, at):
        """The usual name of the file: by the innermost search directory."""
        best = max((d for d in self.dirs if d[2] == "" or at.startswith(d[2] + "/")), key=lambda d: len(d[2]), default=None)
        if not best:
            return '"%s/%s"' % (ROOT, at)
        rest = at[len(best[2]) + 1:] if best[2] else at
        return "<%s>" % rest if best[0] == "-isystem" else '"%s"' % rest

    def name_from(self, f, t):
        """The name by which f would include t."""
        q = self.quoted(t.at)
        d = os.path.dirname(f.at)
        here = "%s/" % ROOT + (d + "/" if d else "")
        return '"' + q[1 + len(here):] if q.startswith('"' + here) else q

    def resolve(self, f, n):
        """The place that the compiler finds for an include (below the root)."""
        inner = n[1:-1]
        if inner.startswith("/"):
            return [os.path.relpath(inner, ROOT)]
        order = [d[2] for k in ("-iquote", "-I", "-isystem") for d in self.dirs if d[0] == k and (k != "-iquote" or n[0] == '"')]
        if n[0] == '"':
            order = [os.path.dirname(f.at)] + order
        return [os.path.normpath(os.path.join(d, inner)) for d in order]


ROOT = None                                   # stands for the directory of all files


def root():
    global ROOT
    if not ROOT:
        ROOT = "/" + "R" * (len(lib.scratch()) - 1)
    return ROOT


class Prog:
    layout = None

    def __init__(self):
        self.files = []
        self.main = None
        self.pfx = []
        self.opts = dict(nofwd=False, transitive=False, prefix="add", nobuiltin=False)
        self.docs = []                        # mapping files
        self.mapargs = []                     # which of them are asked for
        self.dialect = "llvm"                 # of their expressions
        self.fmt = dict(v=1, max=80, none=False, update=False, quoted=False, long=False, error=0, always=0, ns17=False)
        self.kinds = {}                       # how entities are declared, if not as plain structs
        self.std = "c++17"
        self.templates = set()                # entities that are class templates
        self.loose = False                    # comments may list names in any order
        self.args = []                        # extra -Xiwyu arguments
        self.globs = []                       # patterns of files to report on, besides File.also
        self.keeps = []

    def file(self, name, hdr=True):
        f = File(name, hdr)
        self.files.append(f)
        f.add("nop", text="#pragma once" if hdr else "// %s" % name)
        return f

    def idx(self, f):
        return self.files.index(f) + 1

    def kind(self, e):
        k = self.kinds.get(e)
        if not k:
            ns, n = parts(e)
            k = spell.Kind([(x, False) for x in ns], n)
            if e in self.templates:
                k.params = [spell.Param("class X")]
            self.kinds[e] = k
        return k

    def fwdtext(self, e, alt=1):
        """A forward declaration of e as reports write it."""
        k = self.kind(e)
        t = k.texts()
        return t[(1 if self.fmt["ns17"] and k.ns and all(n for n, _ in k.ns) else 0) + (alt - 1) * (2 if k.ns else 1)]

    def body(self, L):
        """The definition of the class of a def line: bases and body."""
        n = short(L["e"])
        if L["e"] in self.templates:
            return "", {"own": "X x; ", "hold": "X* p; ", "empty": ""}[L["op"]]
        bases = " : " + ", ".join(L["x"]) if L.get("x") else ""
        return bases, pieces.body(n, L["op"] == "auto") if "op" in L else ""

    # -- text -----------------------------------------------------------------
    def text(self, f):
        return "\n".join(self.line_text(f, i) for i in range(len(f.lines))) + "\n"

    def line_text(self, f, i):
        L = f.lines[i]
        c = ""
        k = L["k"]
        m = L.get("m", "")
        if m:
            c = "  // IWYU pragma: " + L.get("mtext", m)
        u = L.get("u") or "%d_%d" % (self.idx(f), i)
        if k == "code":
            t = pieces.text(L, u)
        elif k == "nop":
            t = L.get("text", "")
        elif k == "inc":
            t = "#include " + L["n"]
        elif k == "def":
            t = self.kind(L["e"]).definition(*self.body(L))
        elif k == "fwd":
            t = self.kind(L["e"]).forward(L)
        elif k == "fdecl":
            t = self.kind(L["e"]).enclose("void %s();" % short(L["e"]))
        elif k == "mdef":
            t = macro(L)
        elif k == "undef":
            t = "#undef " + L["e"]
        elif k == "ptr":
            t = "extern %s* p%s;" % (self.kind(L["e"]).use, u)
        elif k == "full":
            t = "inline int u%s() { return sizeof(%s); }" % (u, self.kind(L["e"]).use)
        elif k == "enum":
            t = "inline int u%s() { return (int)%s; }" % (u, self.kind(L["e"]).enumerator)
        elif k == "fn":
            t = "inline void u%s() { %s(); }" % (u, L["e"])
        elif k == "muse":
            t = {"x": "inline int u%s() { return %s; }" % (u, L["e"]),
                 "d": "%s(p%s)" % (L["e"], u),
                 "a": "inline int u%s() { return %s(%s); }" % (u, L["e"], L.get("arg", ""))}[L.get("shape", "x")]
        elif k == "mtest":
            t = {"ifdef": "#ifdef %s", "ifndef": "#ifndef %s", "defined": "#if defined(%s)", "ndefined": "#if !defined %s",
                 "and": "#if 0 && defined(%s)", "if": "#if %s", "elif": "#if 0\n#elif defined(%s)",
                 "elifdef": "#if 0\n#elifdef %s", "elifndef": "#if 0\n#elifndef %s"}[L.get("b", "ifdef")] % L["e"]
        elif k in ("else", "endif"):
            t = "#" + k
        elif k == "prag":
            t = "// IWYU pragma: " + L["text"]
        return t + c

    def texts(self):
        d = {f.at: self.text(f) for f in self.files}
        d.update({x["name"]: maps.render(x) for x in self.docs})
        return d

    def entities(self):
        es = {L["e"] for f in self.files for L in f.lines if "e" in L}
        for f in self.files:
            for L in f.lines:
                if L["k"] == "code":
                    es |= pieces.names(L["y"]) | {L["z"]}
        return sorted((es | {"none"}) - {""})

    def ranks(self, names):
        """Positions of all texts that are ever sorted, in byte order."""
        t = set(names) | {"#include " + n for n in names} | {""}
        for e in self.entities():
            for x in (self.kind(e).long, short(e)):
                t |= {x, x + " (ptr only)"}
            t |= set(self.kind(e).texts())
        return {x: i for i, x in enumerate(sorted(t, key=str.encode), 1)}

    def all_globs(self):
        return [f.name for f in self.files if f.also] + self.globs

    # -- specification ----------------------------------------------------------
    def spec(self):
        names = set(f.q for f in self.files)
        for f in self.files:
            for L in f.lines:
                if "n" in L:
                    names.add(L["n"])
                if L["k"] == "prag" and L["op"] in ("private_include", "no_include"):
                    names.add(L["a"])
        if self.layout:
            names |= {self.layout.name_from(f, t) for f in self.files for t in self.files}
        names = maps.names(self.docs, names)
        names = sorted(names)
        files = []
        for f in self.files:
            lines = []
            for L in f.lines:
                r = dict(k=L["k"], m=L.get("m", ""), e=L.get("e", ""), a=L.get("a", ""),
                         n=L.get("n", ""), t=self.idx(L["t"]) if "t" in L else 0,
                         op=L.get("op", ""), ok=L.get("ok", True), x=L.get("x", []), pin="block" in L and not self.kind(L["e"]).params and (L["block"] != "out" or not self.kind(L["e"]).ns), attr=bool(L.get("attr")),
                         alt=L.get("alt", 1), b=L.get("b", ""), be=L.get("be", ""), arg=L.get("arg", ""), argm=L.get("argm", False))
                if L["k"] == "code":
                    r.update(c=L["c"], y=L["y"], ops=L["ops"], fin=L["fin"], z=L["z"])
                lines.append(r)
            files.append(dict(name=f.name, path=root() + "/" + f.at, q=f.q, sys=f.sys, lines=lines, ln=[list(x) for x in f.numbers()]))
        return dict(files=files, main=self.idx(self.main), pfx=[self.idx(f) for f in self.pfx],
                    names=names, rank=self.ranks(names + [e["seq"][0] for e in maps.entries(self.docs) if e["seq"]]), fmt=self.fmt,
                    short={e: short(e) for e in self.entities() + [""]},
                    long={e: self.kind(e).long for e in self.entities() + [""] if e} | {"": ""},
                    ents={e: self.kind(e).spec() for e in self.entities()},
                    globs=self.all_globs(), keeps=[f.name for f in self.files if f.keep] + self.keeps,
                    dirs=[dict(p=root() + "/" + (d[2] + "/" if d[2] else ""), k=d[0]) for d in self.layout.dirs] if self.layout else [],
                    docs=maps.spec(self.docs), mapargs=self.mapargs, opts=self.opts)


# -- running -------------------------------------------------------------------

HDR = re.compile(r"^(.*) should (add|remove) these lines:$")
FULL = re.compile(r"^The full include-list for (.*):$")
OKRE = re.compile(r"^\((.*) has correct #includes/fwd-decls\)$")
WARN = re.compile(r"^(\S.*?):(\d+):(\d+): warning: (.*)$")
LINES = re.compile(r"^(.*?)  // lines (\d+)-(\d+)$")


class Report:
    """The reports of one run: per file add/remove/full as lists of lines."""

    def __init__(self, out):
        self.out = out
        self.files = []        # dicts: file, add, remove, full, ok
        self.diags = []        # (file, line, text)
        self.other = []
        cur = None
        sect = None
        for line in out.split("\n"):
            m = HDR.match(line)
            if m:
                if m.group(2) == "add" or cur is None or cur["file"] != m.group(1):
                    cur = dict(file=m.group(1), add=[], remove=[], full=[], ok=False)
                    self.files.append(cur)
                sect = m.group(2)
                continue
            m = FULL.match(line)
            if m:
                if cur is None or cur["file"] != m.group(1):
                    cur = dict(file=m.group(1), add=[], remove=[], full=[], ok=False)
                    self.files.append(cur)
                sect = "full"
                continue
            m = OKRE.match(line)
            if m:
                self.files.append(dict(file=m.group(1), add=[], remove=[], full=[], ok=True))
                cur = sect = None
                continue
            if line == "---":
                cur = sect = None
                continue
            if sect and line:
                cur[sect].append(line)
                continue
            if not line:
                continue
            m = WARN.match(line)
            if m:
                self.diags.append((m.group(1), int(m.group(2)), m.group(4)))
            self.other.append(line)


def run_iwyu(binary, cwd, main, args=(), iwyu=(), cxx=("-std=c++17", "-I."), timeout=60):
    cmd = [binary] + list(cxx) + list(args)
    for a in iwyu:
        cmd += ["-Xiwyu", a]
    cmd.append(main)
    try:
        r = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return "(timed out)", -999
    return r.stdout, r.returncode


def parse_line(line):
    """A report line as (removed?, text, (from, to) or None, [names] or None)."""
    minus = line.startswith("- ")
    if minus:
        line = line[2:]
    rng = why = None
    m = LINES.match(line)
    if m:
        line, rng = m.group(1), (int(m.group(2)), int(m.group(3)))
    else:
        m = re.match(r"^(.*?\S)\s*  // for (.*)$", line)
        if m:
            line, why = m.group(1), m.group(2).split(", ")
    return minus, line, rng, why


def why_names(items):
    """Comment names in the order of the report, from the specification's
    <<name, declaration only, count>>; a use without a name is not mentioned."""
    res = []
    for name, ptr, cnt in sorted(((n + (" (ptr only)" if p else ""), p, c) for n, p, c in items),
                                 key=lambda x: (-x[2], x[0])):
        if name:
            res.append(name)
    return res


def expected(prog, rec):
    """What the report must say per file, from a record of IwyuTrace."""
    res = []
    aqi = set(rec["assoc"])
    for fr in rec["files"]:
        f = prog.files[fr["f"] - 1]
        main = prog.main is f
        add, rem, full = [], [], []
        nums = [(0, 0)] + f.numbers()
        for x in fr["lines"]:
            text = "#include " + x["n"] if x["k"] == "inc" else prog.fwdtext(x["n"], x["alt"])
            why = why_names(x["why"])
            noname = not x["why"]
            own = main and x["k"] == "inc" and x["n"] in aqi
            if x["des"]:
                if noname:
                    e = (text, nums[x["l"]] if x["pres"] else None, None)
                elif own:
                    e = (text, None, None)
                else:
                    e = (text, None, tuple(why) if why else None)
                full.append(e)
                if not x["pres"]:
                    add.append(e)
            elif x["pres"]:
                rem.append((text, nums[x["l"]], None))
        res.append(dict(file=f.name, add=sorted(add, key=str), remove=sorted(rem, key=str),
                        full=sorted(full, key=str), ok=not add and not rem))
    return res


def actual(report):
    res = []
    for fr in report.files:
        d = dict(file=fr["file"], ok=fr["ok"])
        for s in ("add", "remove", "full"):
            v = []
            for line in fr[s]:
                minus, text, rng, why = parse_line(line)
                if (s == "remove") != minus:
                    text = "??" + line
                v.append((text, rng, tuple(why) if why else None))
            d[s] = sorted(v, key=str)
        res.append(d)
    return res


def compare(prog, rec, report, diags=True, comments=True):
    """Differences between the specification's prediction and a report."""
    if prog.fmt["v"] != 1 or prog.fmt["none"] or prog.fmt["update"]:
        got = text_of(report.out)
        return ["report of %s is\n%s\nmust be\n%s" % (
            f, "\n".join(got.get(f, ["none"])), "\n".join(t)) for f, t in
            ((prog.files[fr["f"] - 1].name, fr["text"]) for fr in rec["files"]) if got.get(f) != t]
    exp = {e["file"]: e for e in expected(prog, rec)}
    act = actual(report)
    diff = []
    names = [a["file"] for a in act]
    if len(set(names)) != len(names):
        diff.append("a file is reported twice: %s" % names)
    if set(names) != set(exp):
        diff.append("reported files are %s, must be %s" % (sorted(set(names)), sorted(exp)))

    def strip(v):
        return sorted(((t, r, frozenset(why or ()) if prog.loose and not r else 0) for t, r, why in v), key=str)
    for a in act:
        e = exp.get(a["file"])
        if not e:
            continue
        if a["ok"] != e["ok"]:
            diff.append("%s is reported as %scorrect, must be %scorrect" % (
                a["file"], "" if a["ok"] else "in", "" if e["ok"] else "in"))
        for s in ("add", "remove") + (() if e["ok"] else ("full",)):
            x, y = strip(a[s]), strip(e[s])
            if x != y:
                diff.append("%s: %s: reported %s, must be %s" % (
                    a["file"], s, [z for z in x if z not in y] or x, [z for z in y if z not in x] or y))
    if comments and not prog.loose:
        got = text_of(report.out)
        for fr in rec["files"]:
            f = prog.files[fr["f"] - 1].name
            if f in got and got[f] != fr["text"] and not diff:
                diff.append("report of %s is\n%s\nmust be\n%s" % (f, "\n".join(got[f]), "\n".join(fr["text"])))
    if diags and not prog.loose:
        ed = sorted((prog.files[d["f"] - 1].name, prog.files[d["f"] - 1].numbers()[d["l"] - 1][0], d["m"])
                    for d in rec["diags"])
        ad = sorted(report.diags)
        em = maps.once([(x["f"], x["m"]) for x in rec["mapdiags"]])
        am = maps.diagnostics(report.out)
        if em != am:
            diff.append("remarks on mapping files are %s, must be %s" % (am, em))
        if ed != ad:
            diff.append("diagnostics are %s, must be %s" % (ad, ed))
    return diff


def text_of(out):
    """The reports in an output, as lines per file: everything but diagnostics
    and the remarks that follow."""
    res, cur = {}, None
    for line in out.split("\n"):
        m = HDR.match(line) or FULL.match(line)
        k = OKRE.match(line)
        if k:
            res.setdefault(k.group(1), []).extend(["", line])
            cur = None
        elif m:
            f = m.group(1)
            cur = res.setdefault(f, [])
            cur.extend(["", line])
        elif cur is not None and line == "---":
            cur.append(line)
            cur = None
        elif cur is not None and line:
            cur.append(line)
    return res


CFG = """INIT Init
NEXT TNext
CONSTANT Program <- ProgramOf
INVARIANTS OpenOk %s
CHECK_DEADLOCK FALSE
"""


def predict(ck, progs, laws=True):
    specs = [p.spec() for p in progs]
    try:
        return lib.tlc_batch(ck, "IwyuTrace", CFG % ("LawsOk" if laws else ""), specs)
    except lib.CheckError as e:
        if "LawsOk" not in str(e) and 'broken = {"' not in str(e):
            raise
        # show the program rather than states
        for p, r in zip(progs, lib.tlc_batch(ck, "IwyuTrace", CFG % "", specs)):
            if r.get("laws"):
                t = p.texts()
                raise lib.CheckError("the specification breaks its law %s on\n%s\n%s\n%s" % (
                    r["laws"], "".join("--- %s\n%s" % (n, t[n]) for n in t), arguments(p),
                    "\n".join("\n".join(f["text"]) for f in r["files"])))
        raise


def arguments(prog):
    """Arguments for the compiler and for the analyser."""
    args = ["-w"] if prog.loose else ["-Wno-ignored-attributes", "-Wno-macro-redefined", "-Wno-c++23-extensions"]
    for f in prog.pfx:
        args += ["-include", f.name]
    iwyu = list(prog.args)
    iwyu += ["--check_also=" + g for g in prog.all_globs()]
    iwyu += ["--keep=" + g for g in [f.name for f in prog.files if f.keep] + prog.keeps]
    iwyu += ["--mapping_file=" + m for m in prog.mapargs]
    if prog.dialect != "llvm":
        iwyu.append("--regex=" + prog.dialect)
    if prog.opts["nobuiltin"]:
        iwyu.append("--no_default_mappings")
    if prog.opts["nofwd"]:
        iwyu.append("--no_fwd_decls")
    if prog.opts["transitive"]:
        iwyu.append("--transitive_includes_only")
    F = prog.fmt
    if F["v"] != 1:
        iwyu.append("--verbose=%d" % F["v"])
    if F["max"] != 80:
        iwyu.append("--max_line_length=%d" % F["max"])
    if F["none"]:
        iwyu.append("--no_comments")
    if F["update"]:
        iwyu.append("--update_comments")
    if F["quoted"]:
        iwyu.append("--quoted_includes_first")
    if F["ns17"]:
        iwyu.append("--cxx17ns")
    if F["long"]:
        iwyu.append("--comment_style=long")
    if F["error"]:
        iwyu.append("--error=%d" % F["error"])
    if F["always"]:
        iwyu.append("--error_always=%d" % F["always"])
    if prog.opts["prefix"] != "add":
        iwyu.append("--prefix_header_includes=" + prog.opts["prefix"])
    if prog.layout:
        for option, spelling, _ in prog.layout.dirs:
            args += [option, spelling]
    elif any(f.sys for f in prog.files):
        args.append("-isystemsys")
    return args, iwyu


def workdir(prog, d):
    if prog.layout and prog.layout.cwd:
        d = os.path.join(d, prog.layout.cwd)
        os.makedirs(d, exist_ok=True)
    return d


def execute(binary, prog, keep=False):
    d = lib.scratch()
    here = (lambda t: t.replace(root(), d)) if prog.layout else (lambda t: t)
    lib.write_files(d, {n: here(t) for n, t in prog.texts().items()})
    for _, _, p in prog.layout.dirs if prog.layout else ():
        os.makedirs(os.path.join(d, p), exist_ok=True)
    args, iwyu = arguments(prog)
    out, rc = run_iwyu(binary, workdir(prog, d), here(prog.layout.main if prog.layout else prog.main.name), args=[here(a) for a in args],
                       iwyu=[here(a) for a in iwyu], cxx=("-std=" + prog.std,) + (() if prog.layout else ("-I.",)))
    if prog.layout:
        out = out.replace(d, root())
    # paths of mapping files as seen from there
    out = "".join(L.replace(d + "/", "") if ".imp" in L else L for L in out.splitlines(True))
    if not keep:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return out, rc
