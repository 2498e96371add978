------------------------------ MODULE IwyuNames ------------------------------
(* Names of files: which belong together, which are headers, which match a  *)
(* pattern.  Paths are strings.                                             *)
EXTENDS Naturals, Sequences

EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Without(s, t) == SubSeq(s, 1, Len(s) - Len(t))

\* The path without the first of the endings that it has.
RECURSIVE StripOne(_, _)
StripOne(s, ends) ==
  IF ends = << >> THEN s
  ELSE IF EndsWith(s, Head(ends)) THEN Without(s, Head(ends)) ELSE StripOne(s, Tail(ends))

SourceEnds == <<".c", ".C", ".cc", ".CC", ".cxx", ".CXX", ".cpp", ".CPP", ".c++", ".C++", ".cp">>
HeaderEnds == <<".h", ".H", ".hpp", ".hxx", ".hh", ".inl">>
TestEnds == <<"_unittest", "_regtest", "_test">>

IsHeaderName(s) == \A i \in 1..Len(SourceEnds) : ~EndsWith(s, SourceEnds[i])

\* s with the first t in it replaced by u.
ReplaceFirst(s, t, u) ==
  LET at == {i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t}
      i == CHOOSE i \in at : \A j \in at : i <= j
  IN IF Len(s) < Len(t) \/ at = {} THEN s ELSE SubSeq(s, 1, i - 1) \o u \o SubSeq(s, i + Len(t), Len(s))

\* Files of one component have the same canonical name.
Canonical(path) ==
  LET a == StripOne(path, HeaderEnds \o SourceEnds)
      b == StripOne(a, TestEnds)
      c == IF b = a /\ StartsWith(a, "test_headercompile_") THEN SubSeq(a, 20, Len(a)) ELSE b
      d == StripOne(c, <<"-inl">>)
  IN ReplaceFirst(ReplaceFirst(d, "/internal/", "/public/"), "/include/", "/src/")

Base(path) ==
  LET at == {i \in 1..Len(path) : SubSeq(path, i, i) = "/"}
  IN IF at = {} THEN path ELSE SubSeq(path, (CHOOSE i \in at : \A j \in at : j <= i) + 1, Len(path))

\* Where a directory called internal begins in a quoted name (0: nowhere);
\* the name up to there is that of the directory around it.
InternalAt(q) ==
  LET at == {i \in 2..(Len(q) - 9) : SubSeq(q, i, i + 9) = "/internal/"}
  IN IF at = {} THEN 0 ELSE (CHOOSE i \in at : \A j \in at : i <= j) + 1

\* ---- paths -----------------------------------------------------------------
\* The parts between slashes.
RECURSIVE Split(_)
Split(s) ==
  LET at == {i \in 1..Len(s) : SubSeq(s, i, i) = "/"}
      i == CHOOSE i \in at : \A j \in at : i <= j
  IN IF at = {} THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))

RECURSIVE Join(_)
Join(ps) == IF ps = << >> THEN "" ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o "/" \o Join(Tail(ps))

RECURSIVE Undot(_, _, _)
\* Without dots and double slashes; going up from the root stays there.
Undot(ps, acc, abs) ==
  IF ps = << >> THEN acc
  ELSE LET p == Head(ps)
       IN Undot(Tail(ps),
            CASE p \in {"", "."} -> acc
              [] p = ".." -> IF acc # << >> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1)
                             ELSE IF abs THEN acc ELSE Append(acc, p)
              [] OTHER -> Append(acc, p), abs)

Normalize(s) ==
  LET abs == StartsWith(s, "/")
  IN (IF abs THEN "/" ELSE "") \o Join(Undot(Split(s), << >>, abs))

\* ---- patterns of the command line ------------------------------------------
\* * any text, ? any character, [abc] and [!abc] one of (or none of) a set of
\* characters (ranges are not covered); a slash is a character like any other.
RECURSIVE Matches(_, _)
Matches(g, s) ==
  IF g = "" THEN s = ""
  ELSE
    LET c == SubSeq(g, 1, 1)
        rest == SubSeq(g, 2, Len(g))
        close == {i \in 3..Len(g) : SubSeq(g, i, i) = "]"}
    IN CASE c = "*" -> \E k \in 0..Len(s) : Matches(rest, SubSeq(s, k + 1, Len(s)))
         [] c = "?" -> s # "" /\ Matches(rest, SubSeq(s, 2, Len(s)))
         [] c = "[" /\ close # {} ->
              LET e == CHOOSE i \in close : \A j \in close : i <= j
                  neg == SubSeq(g, 2, 2) = "!"
                  set == {SubSeq(g, i, i) : i \in (IF neg THEN 3 ELSE 2)..(e - 1)}
              IN s # "" /\ (neg # (SubSeq(s, 1, 1) \in set))
                 /\ Matches(SubSeq(g, e + 1, Len(g)), SubSeq(s, 2, Len(s)))
         [] OTHER -> s # "" /\ SubSeq(s, 1, 1) = c /\ Matches(rest, SubSeq(s, 2, Len(s)))

MatchesAny(gs, s) == \E i \in 1..Len(gs) : Matches(Normalize(gs[i]), s)
=============================================================================
