------------------------------ MODULE IwyuSpell ------------------------------
(* How forward declarations are written, and what can be declared so.       *)
(*                                                                          *)
(* P.ents[e] describes entity e: ns, the namespaces around it from the      *)
(* outside, each [n |-> name, "" if it has none, inl |-> inline], name, and *)
(* alts, the ways in which its declarations in the program begin, each      *)
(* [key, tps]: the kind of type and its template parameters as the compiler *)
(* writes them ([t |-> text, opt |-> has a default or is a pack, dep |->    *)
(* mentions other declarations]); under, its underlying type with a colon,  *)
(* if it is an enumeration with a fixed one; req: constrained by a clause.  *)
EXTENDS Naturals, Sequences

RECURSIVE JoinText(_, _)
JoinText(s, sep) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinText(Tail(s), sep)

IsEnumKey(key) == Len(key) >= 4 /\ SubSeq(key, 1, 4) = "enum"
IsEnum(P, e) == IsEnumKey(P.ents[e].alts[1].key)

\* ---- what can be declared ---------------------------------------------------

\* Never declared ahead: the author may move what is in an inline namespace,
\* and an enumeration with no fixed type has no such declarations.
InInline(P, e) == \E i \in 1..Len(P.ents[e].ns) : P.ents[e].ns[i].inl
Undeclarable(P, e) == P.ents[e].alts[1].key = "enum" /\ P.ents[e].under = ""

\* Declared ahead only if there is no definition to be had: each default can
\* be given once only, and what else the parameters mention may be unknown.
Delicate(P, e) ==
  \/ P.ents[e].req
  \/ \E i \in 1..Len(P.ents[e].alts[1].tps) : P.ents[e].alts[1].tps[i].opt \/ P.ents[e].alts[1].tps[i].dep

\* ---- text --------------------------------------------------------------------

Nested(ns, text) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(ns) THEN text
               ELSE "namespace " \o (IF ns[i].n = "" THEN "" ELSE ns[i].n \o " ") \o "{ " \o Go(i + 1) \o " }"
  IN Go(1)

Concise(ns, text) ==
  IF ns = << >> THEN text
  ELSE "namespace " \o JoinText([i \in 1..Len(ns) |-> ns[i].n], "::") \o " { " \o text \o " }"

FwdText(P, e, alt) ==
  LET E == P.ents[e]
      A == E.alts[alt]
      tpl == IF A.tps = << >> THEN ""
             ELSE "template <" \o JoinText([i \in 1..Len(A.tps) |-> A.tps[i].t], ", ") \o "> "
      text == tpl \o A.key \o " " \o E.name \o E.under \o ";"
      nameless == \E i \in 1..Len(E.ns) : E.ns[i].n = ""
  IN IF P.fmt.ns17 /\ ~nameless THEN Concise(E.ns, text) ELSE Nested(E.ns, text)

\* ---- reading such a text -------------------------------------------------------

RECURSIVE Words(_, _)
Words(s, w) ==   \* w: the word so far
  IF s = "" THEN (IF w = "" THEN << >> ELSE <<w>>)
  ELSE LET c == SubSeq(s, 1, 1)
           r == SubSeq(s, 2, Len(s))
       IN IF c = " " THEN (IF w = "" THEN << >> ELSE <<w>>) \o Words(r, "") ELSE Words(r, w \o c)

RECURSIVE Scopes(_, _)
Scopes(s, w) ==   \* a::b as <<a, b>>
  IF s = "" THEN <<w>>
  ELSE IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "::" THEN <<w>> \o Scopes(SubSeq(s, 3, Len(s)), "")
  ELSE Scopes(SubSeq(s, 2, Len(s)), w \o SubSeq(s, 1, 1))

\* How many brackets a word leaves open, a hundred for each parenthesis, inside
\* of which < and > are no brackets; where the last one closes: after the words
\* of "template <...>".
RECURSIVE Depth(_, _)
Depth(s, d) ==
  IF s = "" THEN d
  ELSE LET c == SubSeq(s, 1, 1)
       IN Depth(SubSeq(s, 2, Len(s)), IF c = "(" THEN d + 100 ELSE IF c = ")" THEN d - 100
                                 ELSE IF d >= 100 THEN d ELSE IF c = "<" THEN d + 1 ELSE IF c = ">" THEN d - 1 ELSE d)

RECURSIVE Closed(_, _, _)
Closed(ws, i, d) ==
  LET n == Depth(ws[i], d) IN IF n = 0 THEN i ELSE Closed(ws, i + 1, n)

RECURSIVE Understood(_, _, _)
\* [ns, key, name, tail, ok] as a reader finds them.
Understood(ws, ns, open) ==
  IF ws[1] = "namespace"
  THEN IF ws[2] = "{" THEN Understood(SubSeq(ws, 3, Len(ws)), Append(ns, ""), open + 1)
       ELSE IF ws[3] = "{" THEN Understood(SubSeq(ws, 4, Len(ws)), ns \o Scopes(ws[2], ""), open + 1)
       ELSE [ok |-> FALSE]
  ELSE
    LET tpl == ws[1] = "template"
        start == IF tpl THEN Closed(ws, 2, 0) + 1 ELSE 1
        body == SubSeq(ws, start, Len(ws) - open)
        shut == SubSeq(ws, Len(ws) - open + 1, Len(ws))
        long == body[1] = "enum" /\ body[2] \in {"class", "struct"}
        key == IF long THEN body[1] \o " " \o body[2] ELSE body[1]
        rest == JoinText(SubSeq(body, IF long THEN 3 ELSE 2, Len(body)), " ")
    IN [ok |-> \A i \in 1..Len(shut) : shut[i] = "}", ns |-> ns, key |-> key, tpl |-> tpl, rest |-> rest]

Understand(text) == Understood(Words(text, ""), << >>, 0)

\* The text declares e.
Declares(P, text, e, alt) ==
  LET r == Understand(text)
      E == P.ents[e]
  IN /\ r.ok
     /\ r.ns = [i \in 1..Len(E.ns) |-> E.ns[i].n]
     /\ r.key = E.alts[alt].key
     /\ r.tpl = (E.alts[alt].tps # << >>)
     /\ r.rest = E.name \o E.under \o ";"
=============================================================================
