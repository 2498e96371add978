------------------------------- MODULE IwyuUse -------------------------------
(* What a piece of code needs of the types it names: a small semantics of   *)
(* declarations and expressions.                                            *)
(*                                                                          *)
(* A type is [k, e, a]: k is ent (the class e), tpl (the class template e   *)
(* with argument a[1]), int, or ptr, ref, cref, rref, arr of a[1].          *)
(* A piece of code is [c, y, ops, fin, z]: with c = "expr" it is a function *)
(* with a parameter p of type y, the operations ops applied to p one after  *)
(* the other and the result used as fin says (z is another class that fin   *)
(* may name); otherwise c is a declaration or other mention of the type y.  *)
(*                                                                          *)
(* A need is [e, k]: of the class e, k = "ptr": a declaration, "full": the  *)
(* definition, because the language asks for it, "want": the definition,    *)
(* because the code would be wrong without, "intent": the definition, if    *)
(* the author of this file means to provide it.                             *)
EXTENDS IwyuDecide

Ent(e) == [k |-> "ent", e |-> e, a |-> << >>]
IntTy == [k |-> "int", e |-> "", a |-> << >>]
Of(k, y) == [k |-> k, e |-> "", a |-> <<y>>]
Tpl(e, y) == [k |-> "tpl", e |-> e, a |-> <<y>>]

Need(e, k) == [e |-> e, k |-> k]

RECURSIVE Named(_, _)
\* All classes that a type names.
Named(y, k) ==
  (IF y.k \in {"ent", "tpl"} THEN <<Need(y.e, k)>> ELSE << >>)
  \o (IF y.a # << >> THEN Named(y.a[1], k) ELSE << >>)

RECURSIVE Heads(_, _)
\* The class templates among them.
Heads(y, k) ==
  (IF y.k = "tpl" THEN <<Need(y.e, k)>> ELSE << >>)
  \o (IF y.a # << >> THEN Heads(y.a[1], k) ELSE << >>)

RECURSIVE Complete(_, _, _)
\* What must be defined for an object of type y to exist. ops says for each
\* class template what its body does with its argument.
Complete(ops, y, k) ==
  CASE y.k = "ent" -> <<Need(y.e, k)>>
    [] y.k = "arr" -> Complete(ops, y.a[1], k)
    [] y.k = "tpl" -> <<Need(y.e, k)>> \o (IF ops[y.e] = "own" THEN Complete(ops, y.a[1], k) ELSE << >>)
    [] OTHER -> << >>

IsRef(y) == y.k \in {"ref", "cref", "rref"}
NoRef(y) == IF IsRef(y) THEN y.a[1] ELSE y

\* ---- expressions -----------------------------------------------------------
\* (Operators on objects of template classes that could be overloaded
\* instantiate the class if they can, so what they need depends on what is
\* visible; these are left out.)
\* An expression so far: its type, whether it is an lvalue, what it needs, and
\* whether it is well-formed.

Illegal(st) == [st EXCEPT !.ok = FALSE]
Res(st, y, lv, u) == [st EXCEPT !.y = y, !.lv = lv, !.u = @ \o u]

Apply(ops, st, op) ==
  LET y == st.y
      z == IF y.a # << >> THEN y.a[1] ELSE IntTy
  IN CASE op = "deref" -> IF y.k = "ptr" THEN Res(st, z, TRUE, << >>) ELSE Illegal(st)
       [] op = "addr" -> IF st.lv /\ y.k # "tpl" THEN Res(st, Of("ptr", y), FALSE, << >>) ELSE Illegal(st)
       [] op = "index" -> IF y.k \in {"ptr", "arr"} THEN Res(st, z, TRUE, Complete(ops, z, "full")) ELSE Illegal(st)
       [] op = "xedni" -> IF y.k \in {"ptr", "arr"} THEN Res(st, z, TRUE, Complete(ops, z, "full")) ELSE Illegal(st)
       [] op = "plus" -> IF y.k \in {"ptr", "arr"} THEN Res(st, Of("ptr", z), FALSE, Complete(ops, z, "full")) ELSE Illegal(st)
       [] op = "inc" -> IF y.k = "ptr" /\ st.lv THEN Res(st, y, TRUE, Complete(ops, z, "full")) ELSE Illegal(st)
       [] op = "dec" -> IF y.k = "ptr" /\ st.lv THEN Res(st, y, FALSE, Complete(ops, z, "full")) ELSE Illegal(st)
       [] op = "next" -> IF y.k = "ptr" /\ z.k = "ent" THEN Res(st, y, TRUE, Complete(ops, z, "full")) ELSE Illegal(st)
       [] op = "comma" -> IF y.k # "tpl" THEN Res(st, y, st.lv, << >>) ELSE Illegal(st)
       [] op = "cond" -> IF (st.lv \/ y.k = "ptr") /\ y.k # "tpl" THEN Res(st, y, st.lv, << >>) ELSE Illegal(st)
       [] OTHER -> Illegal(st)

\* How the value is used in the end.
Finish(ops, st, fin, e2) ==
  LET y == st.y
      z == IF y.a # << >> THEN y.a[1] ELSE IntTy
      class == y.k \in {"ent", "tpl"}
      need(u) == Res(st, IntTy, FALSE, u)
      all == Complete(ops, y, "full")
      when(b, u) == IF b THEN need(u) ELSE Illegal(st)
  IN CASE fin \in {"discard", "bind"} -> need(<< >>)
       [] fin = "unevaluated" -> need(<< >>)
       [] fin = "self" -> when(y.k # "tpl", << >>)
       [] fin = "copy" -> when(y.k # "arr", all)
       [] fin = "newcopy" -> when(y.k # "arr", all)
       [] fin = "vararg" -> when(y.k # "tpl", IF y.k = "arr" THEN << >> ELSE Complete(ops, y, "want"))
       [] fin = "branch" -> when(y.k = "ent", all)
       [] fin = "unpack" -> when(y.k = "ent" /\ st.lv, all)
       [] fin = "capture" -> when(st.lv /\ y.k # "arr", all)
       [] fin = "refer" -> when(st.lv, << >>)
       [] fin = "sizeof" -> need(all)
       [] fin = "member" -> when(y.k = "ent", all)
       [] fin = "call" -> when(y.k = "ent", all)
       [] fin = "convert" -> when(y.k = "ent", all)
       [] fin = "add" -> when(y.k = "ent", all)
       [] fin = "apply" -> when(y.k = "ent", all)
       [] fin = "assign" -> when(st.lv /\ y.k # "arr", all)
       [] fin = "arrow" -> when(y.k = "ptr" /\ z.k = "ent", Complete(ops, z, "full"))
       [] fin = "for" -> when(y.k = "arr", all)
       [] fin = "throw" -> when(y.k # "arr", all \o (IF y.k = "ptr" THEN Complete(ops, z, "full") ELSE << >>))
       [] fin = "delete" -> when(y.k = "ptr" /\ z.k # "tpl", Complete(ops, z, "want"))
       [] fin \in {"test", "not", "equal", "less", "voidp"} -> when(y.k = "ptr", << >>)
       [] fin = "diff" -> when(y.k = "ptr", Complete(ops, z, "full"))
       [] fin = "dynamic" -> when(y.k = "ptr" /\ z.k = "ent", Complete(ops, z, "full"))
       [] fin = "ccast" -> when(y.k = "ptr" /\ z.k # "tpl", <<Need(e2, "ptr")>>)
       [] fin = "recast" -> when(y.k = "ptr", <<Need(e2, "ptr")>>)
       [] fin = "retype" -> when(y.k = "ptr", <<Need(e2, "ptr")>>)
       [] OTHER -> Illegal(st)

\* ---- mentions ----------------------------------------------------------------

\* Does the author of a function that takes a y mean to let it be converted to?
Converts(ops, y) ==
  LET z == NoRef(y)
  IN y.k \in {"ent", "cref"} /\ z.k = "ent" /\ ops[z.e] = "auto"

Objects == {"ent", "tpl", "ptr", "arr"}
Mention(ops, c, y, header) ==
  LET names == Named(y, "ptr")
      obj == y.k \in Objects
      all == Complete(ops, y, "full")
      bare == Complete(ops, NoRef(y), "full")
      isent == y.k = "ent"
      intent == Named(y, "intent")
      r(ok, u) == [ok |-> ok, u |-> names \o u]
      \* whoever means to provide a class does more than name it
      ri(ok, b, u) == [ok |-> ok, u |-> (IF b THEN Heads(y, "ptr") \o intent ELSE names) \o u]
      given == header /\ y.k \in {"ent", "tpl"}
      taken == header /\ Converts(ops, y)
      noarr == y.k # "arr"
  IN CASE c \in {"extern", "sfield", "usingdecl"} -> r(TRUE, << >>)
       [] c \in {"var", "field", "local"} -> r(IF c = "field" THEN TRUE ELSE obj, all)
       [] c \in {"funret", "metret"} ->
            ri(noarr, given, << >>)
       [] c = "virtret" -> ri(noarr, given, << >>)
       [] c = "convop" -> ri(noarr /\ (y.a = << >> \/ y.a[1].k # "arr"), given, << >>)
       [] c = "funref" -> r(TRUE, << >>)
       [] c = "memptrtype" -> r(y.k \in {"ent", "tpl"}, << >>)
       [] c = "trait" -> r(y.k \in {"ent", "tpl"}, all)
       [] c = "fundefault" -> r(y.k = "ptr", << >>)
       [] c \in {"funpar", "metpar", "ctorpar"} ->
            ri(noarr, taken, << >>)
       [] c \in {"defpar", "lambdapar"} -> ri(noarr, taken, all)
       [] c = "defret" -> r(noarr, all)
       [] c = "alias" -> ri(TRUE, TRUE, << >>)
       [] c \in {"sizeof", "enumval", "bits", "assert", "default", "noexcept", "bound"} -> r(TRUE, bare)
       [] c = "alignof" -> r(TRUE, bare)
       [] c = "new" -> r(obj /\ noarr, all)
       [] c = "newarr" -> r(obj /\ noarr, all)
       [] c = "value" -> r(isent, all)
       [] c = "base" -> r(y.k \in {"ent", "tpl"}, all)
       [] c = "nested" -> r(y.k \in {"ent", "tpl"}, all)
       [] c = "friend" -> r(isent, << >>)
       [] c = "catch" -> r(y.k \in {"ent", "tpl", "ref", "cref", "ptr"} /\ ~(IsRef(y) /\ y.a[1].k = "ptr"),
                           bare \o (IF y.k = "ptr" THEN Complete(ops, y.a[1], "full") ELSE << >>))
       [] c \in {"static", "enumerator", "inner", "memptr", "method"} -> r(isent, all)
       [] OTHER -> r(FALSE, << >>)

\* ---- all together --------------------------------------------------------------

Code(ops, L, header) ==
  IF L.c # "expr" THEN Mention(ops, L.c, L.y, header)
  ELSE
    LET start == [y |-> NoRef(L.y), lv |-> TRUE, ok |-> TRUE,
                  u |-> Named(L.y, IF header /\ Converts(ops, L.y) THEN "intent" ELSE "ptr")
                        \o Complete(ops, L.y, "full")]
        RECURSIVE Go(_, _)
        Go(i, st) == IF i > Len(L.ops) \/ ~st.ok THEN st ELSE Go(i + 1, Apply(ops, st, L.ops[i]))
        st == Go(1, start)
        end == IF st.ok THEN Finish(ops, st, L.fin, L.z) ELSE st
    IN [ok |-> end.ok, u |-> end.u]
=============================================================================
