"""Kinds of types a program can have: how their declarations and uses are
written.  Knows nothing about what is right."""


class Param:
    """A template parameter: in the source, as the compiler writes it, its
    default, whether it mentions other declarations."""

    def __init__(self, src, text=None, default="", pack=False, dep=False):
        self.src, self.text = src, text or src
        self.default, self.pack, self.dep = default, pack, dep

    def source(self, first):
        return self.src + (" = " + self.default if self.default and first else "")

    def spec(self):
        t = self.text + (" = " + self.default if self.default else "")
        return dict(t=t, opt=bool(self.default or self.pack), dep=self.dep)


class Kind:
    def __init__(self, ns, name, key="struct", params=(), **kw):
        self.ns = ns                # [(name, inline)]
        self.name = name
        self.key = key
        self.params = list(params)
        self.args = ""              # template arguments of its uses
        self.under = ""             # underlying type as the compiler writes it
        self.usrc = ""              # and in the source
        self.attr = ""              # attribute of the definition
        self.tail = ""              # final, bases
        self.pre = ""               # text before each declaration
        self.clause = ""            # requires clause
        self.block = ""             # linkage block around the definition
        self.single = False         # one declaration only
        self.other = None           # (key, params) of some declarations
        self.__dict__.update(kw)

    @property
    def enum(self):
        return self.key.startswith("enum")

    def enclose(self, text, sep=" "):
        o = ["%snamespace %s{" % ("inline " if i else "", n + " " if n else "") for n, i in self.ns]
        return sep.join(o + [text] + ["}"] * len(o))

    def alt(self, k):
        return (self.key, self.params) if k == 1 else self.other

    def head(self, k, first, attr=""):
        key, ps = self.alt(k)
        t = "template <%s> " % ", ".join(p.source(first) for p in ps) if ps else ""
        return t + self.clause + key + " " + (attr + " " if attr else "")

    def forward(self, L):
        """The declaration of a fwd line."""
        t = self.head(L.get("alt", 1), True, L.get("attr", "")) + {1: "", 2: "\n", 3: "\n\n"}[L.get("h", 1)] \
            + self.name + self.usrc + ";"
        return self.block_of(L, self.pre + t)

    def block_of(self, L, t):
        r = L.get("block", "")
        if r == "in":
            return self.enclose('extern "C++" { %s }' % t)
        if r == "line":
            return self.enclose('extern "C++" ' + t)
        if r == "out":
            return 'extern "C++" { %s }' % self.enclose(t)
        return self.enclose(t)

    def definition(self, bases, body):
        t = self.head(1, True, self.attr) + self.name + self.usrc + self.tail + bases
        t += " { %s_x };" % self.name if self.enum else " {%s};" % body
        return self.block_of(dict(block=self.block), self.pre + t)

    def texts(self):
        """All that a forward declaration of it can look like."""
        res = []
        for k in (1, 2) if self.other else (1,):
            key, ps = self.alt(k)
            t = "template <%s> " % ", ".join(p.spec()["t"] for p in ps) if ps else ""
            t += key + " " + self.name + self.under + ";"
            o = ["namespace %s{ " % (n + " " if n else "") for n, i in self.ns]
            res.append("".join(o) + t + " }" * len(o))
            if self.ns:
                res.append("namespace %s { %s }" % ("::".join(n for n, _ in self.ns), t))
        return res

    @property
    def path(self):
        """How it is named in programs."""
        return "::".join([n for n, _ in self.ns if n] + [self.name])

    @property
    def use(self):
        return self.path + self.args

    @property
    def long(self):
        """How reports name it."""
        return "::".join([n for n, i in self.ns if n and not i] + [self.name])

    @property
    def enumerator(self):
        return self.path + "::" + self.name + "_x"

    def spec(self):
        alts = [self.alt(1)] + ([self.other] if self.other else [])
        return dict(ns=[dict(n=n, inl=i) for n, i in self.ns], name=self.name, under=self.under, req=bool(self.clause),
                    attr=self.attr == "[[maybe_unused]]",
                    alts=[dict(key=k, tps=[p.spec() for p in ps]) for k, ps in alts])
