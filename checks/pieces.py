"""Source text of the pieces of code that specs/IwyuUse.tla gives a meaning."""


def body(name, auto):
    """The body of a class with all that the pieces ask of one."""
    return (" int m; static int s; N* next; enum E { e1 }; typedef int I; void f(); N(); "
            "%sN(int); N(const N&); virtual ~N(); N& operator=(const N&); operator int() const; "
            "int operator+(int) const; void operator()(); " % ("" if auto else "explicit ")
            ).replace("N", "\0").replace("\0", name)


def typ(y, inner="", const=False):
    """A declaration of inner with type y."""
    k = y["k"]
    c = "const " if const else ""
    if k in ("ent", "int"):
        return (c + (y["e"] or "int") + " " + inner).rstrip()
    if k == "tpl":
        return ("%s%s<%s> %s" % (c, y["e"], typ(y["a"][0]), inner)).rstrip()
    z = y["a"][0]
    if k == "arr":
        return typ(z, inner + "[2]", const)
    s = {"ptr": "*", "ref": "&", "cref": "&", "rref": "&&"}[k]
    inner = s + c + inner
    if z["k"] == "arr":
        inner = "(" + inner + ")"
    return typ(z, inner, k == "cref")


OPS = {"deref": ["*%s"], "addr": ["&%s"], "index": ["%s[0]"], "xedni": ["0[%s]"], "plus": ["%s + 1", "1 + %s", "%s - 1"],
       "inc": ["++%s", "%s += 1"], "dec": ["%s--", "%s++"], "next": ["%s->next"], "comma": ["0, %s"],
       "cond": ["true ? %s : %s"]}

FINS = {"discard": ["(void)%s;"], "bind": ["auto&& q = %s;"], "copy": ["auto q = %s;", "auto q(%s);", "auto q{%s};"],
        "capture": ["auto& q = %s; (void)[q] {};", "auto& q = %s; (void)[r = q] {};"],
        "refer": ["auto& q = %s; (void)[&q] {};", "auto& q = %s;"],
        "sizeof": ["(void)sizeof %s;"], "member": ["%s.m;", "%s.s;", "%s.next;"], "call": ["%s.f();"],
        "convert": ["int q = %s;", "(int)%s;", "static_cast<int>(%s);"], "add": ["%s + 1;"], "apply": ["%s();"],
        "assign": ["%s = %s;"], "arrow": ["%s->m;", "%s->f();"], "for": ["for (auto& q : %s) {}"],
        "throw": ["throw %s;"], "delete": ["delete %s;", "delete[] %s;"], "test": ["if (%s) {}", "while (%s) {}"],
        "not": ["bool q = !%s;"], "equal": ["bool q = %s == %s;", "bool q = %s != nullptr;"],
        "less": ["bool q = %s < %s;"], "voidp": ["const void* q = %s;", "static_cast<const void*>(%s);"],
        "diff": ["long q = %s - %s;"], "dynamic": ["auto q = %s; dynamic_cast<decltype(q)>(q);", "dynamic_cast<void*>(%s);"],
        "recast": ["reinterpret_cast<Z*>(%s);"], "ccast": ["(Z*)%s;"],
        "retype": ["static_cast<Z*>((void*)%s);"], "self": ["(void)static_cast<decltype(%s)>(%s);"],
        "unevaluated": ["(void)noexcept(%s);", "using Q = decltype(%s);"], "newcopy": ["new auto(%s);"],
        "vararg": ["int f(int, ...); (void)sizeof f(1, %s);", "int f(int, ...); (void)sizeof f(1, %s, 1);"],
        "branch": ["if (%s) {}", "switch (%s) {}", "while (%s) {}", "int q = %s ? 1 : 2;"],
        "unpack": ["auto& [q, r] = %s;"]}

FORMS = {
    "extern": ["extern {v};", 'extern "C" {{ extern {v}; }}'], "sfield": ["struct S{u} {{ static {v}; }};"],
    "field": ["struct S{u} {{ {v}; }};", "class S{u} {{ int a; {v}; }};", "union U{u} {{ int a; {v}; U{u}(); }};"],
    "local": ["inline void g{u}() {{ {v}; }}", "inline void g{u}() {{ struct L {{ {v}; }}; }}"],
    "funret": ["{f};", "auto g{u}() -> {t};"], "metret": ["struct S{u} {{ {f}; }};", "struct S{u} {{ static {f}; }};"],
    "virtret": ["struct S{u} {{ virtual {f}; }};", "struct S{u} {{ virtual {f} = 0; }};"],
    "funpar": ["void g{u}({t});", "void g{u}(int, {v});"], "metpar": ["struct S{u} {{ void f({t}); }};"],
    "ctorpar": ["struct S{u} {{ S{u}({t}, int); }};", "struct S{u} {{ explicit S{u}({t}); }};"],
    "fundefault": ["void g{u}(int = 1, {t} = {n});"],
    "lambdapar": ["inline auto g{u}() {{ return []({t}) {{}}; }}"],
    "defpar": ["inline void g{u}({t}) {{}}", "inline void g{u}({v}) {{}}"],
    "defret": ["inline {f} {{ throw 1; }}", "struct S{u} {{ {f} {{ throw 1; }} }};"],
    "alias": ["using A{u} = {t};", "typedef {a};", "struct S{u} {{ typedef {a}; }};"],
    "sizeof": ["inline int g{u}() {{ return sizeof({t}); }}", "inline int g{u} = sizeof({t});"],
    "alignof": ["inline int g{u}() {{ return alignof({t}); }}", "alignas({t}) alignas(int) inline int g{u};"],
    "enumval": ["enum E{u} {{ e{u} = sizeof({t}) }};"], "bits": ["struct S{u} {{ long b : sizeof({t}) % 8 + 1; }};"],
    "assert": ["static_assert(sizeof({t}) > 0);"], "default": ["void g{u}(int = sizeof({t}));"],
    "noexcept": ["void g{u}() noexcept(sizeof({t}) > 1);"], "bound": ["extern int v{u}[sizeof({t})];"],
    "new": ["inline void g{u}() {{ new ({t}); }}"], "newarr": ["inline void g{u}() {{ new ({r}); }}"],
    "value": ["inline void g{u}() {{ {t}(); }}", "inline void g{u}() {{ {t}{{1}}; }}", "inline void g{u}() {{ ({t})1; }}"],
    "base": ["struct S{u} : {t} {{}};", "struct S{u} : virtual {t} {{}};", "class S{u} : private {t} {{}};"],
    "nested": ["struct S{u} {{ struct U : {t} {{}}; }};"], "friend": ["struct S{u} {{ friend {t}; }};"],
    "catch": ["inline void g{u}() {{ try {{}} catch ({t}) {{}} }}", "inline void g{u}() {{ try {{}} catch ({v}) {{}} }}"],
    "static": ["inline int g{u}() {{ return {t}::s; }}"], "enumerator": ["inline int g{u}() {{ return {t}::e1; }}", "enum E{u} {{ x{u} = {t}::e1 }};"],
    "inner": ["extern {t}::I v{u};"], "memptr": ["inline auto g{u}() {{ return &{t}::m; }}"],
    "method": ["inline auto g{u}() {{ return &{t}::f; }}"],
    "convop": ["struct S{u} {{ operator {t}(); }};", "struct S{u} {{ explicit operator {t}() const; }};"],
    "funref": ["void g{u}(int (&)({t}));", "void g{u}(int (*)({t}));", "void g{u}(int (*)(int, {t}), int);"],
    "memptrtype": ["extern int {t}::*v{u};", "void g{u}(int {t}::*);"],
    "trait": ["inline bool g{u} = __is_empty({t});", "static_assert(!__is_polymorphic({t}) || true);",
              "inline bool g{u} = __is_standard_layout({t});"],
}


def text(L, u):
    """The piece L as one line; u makes its names unique."""
    y, v = L["y"], L.get("v", 0)
    if L["c"] == "expr":
        x = "p"
        for i, op in enumerate(L["ops"]):
            t = OPS[op][(v + i) % len(OPS[op])]
            x = "(" + t.replace("%s", x) + ")"
        t = FINS[L["fin"]][v % len(FINS[L["fin"]])]
        return "inline void g%s(%s) { %s }" % (u, typ(y, "p"), t.replace("%s", x).replace("Z*", L["z"] + "*"))
    ref = y["k"] in ("ref", "cref", "rref")
    name = "v" + u
    if L["c"] == "var":
        init = "" if y["k"] != "ptr" else " = nullptr"
        return ["inline %s%s;", "static %s%s;"][v % 2] % (typ(y, name), init)
    forms = FORMS[L["c"]]
    if ref and L["c"] in ("field", "alignof"):       # no references in unions; alignas of them is left out
        forms = [t for t in forms if "union" not in t and "alignas" not in t]
    return forms[v % len(forms)].format(
        t=typ(y), v=typ(y, name), u=u, f=typ(y, "g%s()" % u), a=typ(y, "A" + u), r=typ(y, "[3]"),
        n="nullptr" if y["k"] == "ptr" else "1" if not ref else "2")


def names(y):
    """Classes that a type names."""
    return ({y["e"]} if y["e"] else set()) | {n for z in y["a"] for n in names(z)}


def replaced(y, m):
    return dict(k=y["k"], e=m.get(y["e"], y["e"]), a=[replaced(z, m) for z in y["a"]])
