------------------------------ MODULE IwyuMacro ------------------------------
(* What the expansion of a macro uses, and who answers for it.              *)
(*                                                                          *)
(* A definition has a body b:                                               *)
(*   one  : a number             sz, pt, fn : sizeof, pointer, call of be     *)
(*   mac  : another macro be     nest  : the macro be of the parameter      *)
(*   asz, apt : sizeof of the parameter, of a pointer to it            *)
(*   paste : sizeof of the type be, whose name is pasted together           *)
(* x.macro is the sequence of definitions and, with on = FALSE, ends of     *)
(* definitions, met so far.                                                 *)
EXTENDS IwyuUse

MacroLines(x, e) == SelectSeq(x.macro, LAMBDA d : d.e = e)

\* The definition in force, if there is one.
InForce(x, e) ==
  LET ds == MacroLines(x, e)
  IN IF ds = << >> \/ ~ds[Len(ds)].on THEN << >> ELSE <<ds[Len(ds)]>>

Place(f, l) == [f |-> f, l |-> l]

MacroUse(e, at, d) == [k |-> "sym", s |-> e, at |-> at, d |-> d]
BodyUse(k, s, at) == [k |-> k, s |-> s, at |-> at, d |-> 0]

OfArgument(k, arg) == IF arg.e = "int" THEN << >> ELSE <<BodyUse(k, arg.e, arg.at)>>

Both(a, b) == [ev |-> a.ev \o b.ev, bad |-> a.bad \/ b.bad]
Just(ev) == [ev |-> ev, bad |-> FALSE]

\* The uses that come with the token e at place at, which is replaced by its
\* definition; outer is where the text stands that is expanded in the end; arg
\* is the argument, [e |-> name, at |-> its place, m |-> it is a macro, x |-> it
\* has been expanded]; code: in the program text, not in a condition.
RECURSIVE Expansion(_, _, _, _, _, _)
Expansion(x, e, at, outer, arg, code) ==
  LET def == InForce(x, e)
      d == def[1]
      here == Place(d.f, d.l)
      none == [e |-> "", at |-> at, m |-> FALSE, x |-> TRUE]
      \* the argument's own macros are expanded before it is put in its place
      first == IF arg.m /\ ~arg.x THEN Expansion(x, arg.e, arg.at, outer, none, code) ELSE Just(<< >>)
      only == [ev |-> << >>, bad |-> ~code]
      rest ==
        CASE d.b \in {"", "one", "aone"} -> Just(<< >>)
          [] d.b = "fn" -> [ev |-> <<BodyUse("fn", d.be, here), BodyUse("fn", d.be, here)>>, bad |-> ~code]
          [] d.b \in {"sz", "pt"} ->
               [ev |-> <<BodyUse([sz |-> "full", pt |-> "ptr"][d.b], d.be, here)>>, bad |-> ~code]
          [] d.b = "mac" -> Expansion(x, d.be, here, outer, none, code)
          [] d.b = "nest" -> Both(first, Expansion(x, d.be, here, outer, [arg EXCEPT !.x = TRUE], code))
          [] d.b = "asz" -> Both(first, IF arg.m THEN only
                                        ELSE [ev |-> OfArgument("full", arg), bad |-> ~code])
          [] d.b = "apt" -> Both(first, [ev |-> OfArgument("ptr", arg), bad |-> ~code \/ arg.m])
          [] d.b = "paste" -> [ev |-> <<BodyUse("full", d.be \o arg.e, Place(0, 0))>>, bad |-> ~code \/ arg.m]
  IN IF def = << >> THEN [ev |-> << >>, bad |-> code]
     ELSE Both(Just(<<MacroUse(e, at, here)>>), rest)

\* A macro that mentions another one uses it, if that is one by now.
Mentioned(x, f, l, L) ==
  LET def == IF L.be = "" \/ L.b \notin {"mac", "nest"} THEN << >> ELSE InForce(x, L.be)
  IN IF def = << >> THEN << >> ELSE <<MacroUse(L.be, Place(f, l), Place(def[1].f, def[1].l))>>

\* Whoever writes the words answers for them: the author of the macro for its
\* body, its user for the arguments.  But the author may declare a class and
\* thereby leave its definition to the user; and words that are nobody's, put
\* together from pieces, are the user's as well.
Hints(x, e, f) == SelectSeq(DeclsOf(x, e), LAMBDA d : d.f = f /\ d.cls /\ ~d.dfn)

\* The uses that a use in an expansion comes to, when all is known: the
\* declaration that is such a hint is used, too.
Settled(x, u) ==
  LET hs == IF u.f = 0 THEN << >> ELSE Hints(x, u.s, u.f)
      there == [u EXCEPT !.f = u.xf, !.l = u.xl]
  IN IF u.f = 0 THEN <<there>>
     ELSE IF hs = << >> THEN <<u>>
     ELSE <<[k |-> "ptr", s |-> u.s, f |-> u.f, l |-> u.l, ti |-> u.ti, hint |-> hs[1]], there>>
=============================================================================
