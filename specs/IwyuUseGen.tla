----------------------------- MODULE IwyuUseGen ------------------------------
(* All well-formed pieces of code up to a size, one state each.  Classes    *)
(* are called A and B (A convertible from int), templates Own, Hold, Void.  *)
EXTENDS IwyuUse, TLC, Json

CONSTANTS MaxOps     \* operations applied one after the other

VARIABLE L

Tops == [e \in {"A", "B", "Own", "Hold", "Void"} |->
          CASE e = "A" -> "auto" [] e = "B" -> "" [] e = "Own" -> "own" [] e = "Hold" -> "hold" [] OTHER -> "empty"]

Leaves == {Ent("A"), Ent("B")}
Tpls == {Tpl(t, y) : t \in {"Own", "Hold", "Void"}, y \in {Ent("A"), Of("ptr", Ent("A"))}}
        \cup {Tpl("Own", Tpl(t, Ent("A"))) : t \in {"Own", "Hold"}}
BaseTys == Leaves \cup Tpls
Under == UNION {{Of(k, y) : y \in BaseTys} : k \in {"ptr", "arr"}}
UTwo == UNION {{Of(k, y) : y \in BaseTys \cup {Of("ptr", Ent("A")), Of("arr", Ent("A")), Of("ptr", Of("ptr", Ent("A")))}} : k \in {"ref", "cref", "rref"}}
Types == BaseTys \cup Under \cup UTwo \cup {Of("ptr", Of("ptr", Ent("A"))), Of("arr", Of("ptr", Ent("A"))),
           Of("ptr", Of("arr", Ent("A"))), Of("arr", Of("arr", Ent("A")))}

UParams == Leaves \cup {Of(k, y) : k \in {"ptr", "ref"}, y \in {Ent("A"), Tpl("Own", Ent("A")), Tpl("Hold", Ent("A"))}}
          \cup {Of("cref", Ent("A")), Of("cref", Ent("B")), Of("rref", Ent("A"))}
          \cup {Of("ptr", Of("ptr", Ent("A"))), Of("ref", Of("ptr", Ent("A"))), Of("ref", Of("arr", Ent("A"))),
                Of("ref", Of("arr", Of("ptr", Ent("A")))), Of("ptr", Of("arr", Ent("A"))),
                Of("ptr", Of("ptr", Tpl("Own", Ent("A"))))}

OpNames == {"deref", "addr", "index", "xedni", "plus", "inc", "dec", "next", "comma", "cond"}
FinNames == {"discard", "bind", "copy", "capture", "refer", "sizeof", "member", "call", "convert", "add", "apply",
             "assign", "arrow", "for", "throw", "delete", "test", "not", "equal", "less", "voidp", "diff", "dynamic",
             "recast", "ccast", "retype", "self", "unevaluated", "newcopy", "vararg", "branch", "unpack"}
Mentions == {"extern", "sfield", "var", "field", "local", "funret", "metret", "virtret", "funpar", "metpar", "ctorpar",
             "fundefault", "lambdapar", "defpar", "defret", "alias", "sizeof", "alignof", "enumval", "bits", "assert",
             "default", "noexcept", "bound", "new", "newarr", "value", "base", "nested", "friend", "catch", "static",
             "enumerator", "inner", "memptr", "method", "convop", "funref", "memptrtype", "trait"}

Chains == UNION {[1..n -> OpNames] : n \in 0..MaxOps}

Line(c, y, ops, fin) == [c |-> c, y |-> y, ops |-> ops, fin |-> fin, z |-> "B"]

Constant(y) == y.k = "cref"
\* No changes through a constant (only the code, not its needs, depends on it).
Legal(K) == ~(Constant(K.y) /\ (K.fin \in {"assign", "call", "apply"} \/ \E i \in 1..Len(K.ops) : K.ops[i] \in {"inc", "dec", "addr"}))

UInit ==
  \/ \E c \in Mentions, y \in Types : L = Line(c, y, << >>, "") /\ Code(Tops, L, FALSE).ok
  \/ \E y \in UParams, s \in Chains, fin \in FinNames :
       L = Line("expr", y, s, fin) /\ Legal(L) /\ Code(Tops, L, FALSE).ok

UNext == UNCHANGED L
UPrint == PrintT("@@" \o ToJson([code |-> L, u |-> Code(Tops, L, FALSE).u, h |-> Code(Tops, L, TRUE).u]))

\* ---- laws of the semantics ---------------------------------------------------
\* Needs of kind "full" come with the class being named; what a longer chain of
\* operations needs includes what the shorter one does; whoever owns needs no
\* less than whoever holds.
Kinds(u, k) == {u[i].e : i \in {j \in 1..Len(u) : u[j].k = k}}
NamedFirst == LET u == Code(Tops, L, TRUE).u
              IN Kinds(u, "full") \cup Kinds(u, "want") \subseteq Kinds(u, "ptr") \cup Kinds(u, "intent")
Longer == L.c # "expr" \/ L.ops = << >> \/
          LET K == [L EXCEPT !.ops = SubSeq(@, 1, Len(@) - 1), !.fin = "discard"]
          IN Kinds(Code(Tops, K, FALSE).u, "full") \subseteq Kinds(Code(Tops, L, FALSE).u, "full")
RECURSIVE Swap(_)
Swap(y) == [y EXCEPT !.e = IF @ = "Hold" THEN "Own" ELSE @, !.a = IF @ = << >> THEN @ ELSE <<Swap(y.a[1])>>]
Owning == LET K == [L EXCEPT !.y = Swap(@)]
          IN Kinds(Code(Tops, L, FALSE).u, "full") \ {"Hold"} \subseteq Kinds(Code(Tops, K, FALSE).u, "full")
ULaws == NamedFirst /\ Longer /\ Owning
=============================================================================
