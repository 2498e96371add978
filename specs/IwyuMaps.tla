------------------------------ MODULE IwyuMaps -------------------------------
(* Mapping files: how they are found, read and combined, and what their     *)
(* expressions match.                                                       *)
(*                                                                          *)
(*   docs : sequence of files [name, items, end]; end is what follows the   *)
(*          items: "" (nothing), "cut" (the file ends in the middle of an   *)
(*          item), or "noarray" / "junk" (it has no list of items at all)   *)
(*   item : [obj, ents], ents a sequence of [d, seq, val, re, to]: the      *)
(*          directive d has the list of texts seq, or (if seq is empty) the *)
(*          text val; if its first text is an expression, re is its parsed  *)
(*          form and to the pieces of the text that replaces the match      *)
EXTENDS IwyuPicker, IwyuNames

\* ---- expressions -------------------------------------------------------------
\* [k |-> "chr", c] | [k |-> "any"] | [k |-> "set", cs, neg] | [k |-> "star", x]
\* | [k |-> "alt", xs] | [k |-> "cat", xs] | [k |-> "grp", n, x]
\* A match is [e |-> where it ends, g |-> function from groups to texts].
RECURSIVE MatchFrom(_, _, _, _), MatchSeq(_, _, _, _), Repeat(_, _, _)

MatchFrom(x, s, i, g) ==
  CASE x.k = "chr" -> IF i <= Len(s) /\ SubSeq(s, i, i) = x.c THEN {[e |-> i + 1, g |-> g]} ELSE {}
    [] x.k = "any" -> IF i <= Len(s) THEN {[e |-> i + 1, g |-> g]} ELSE {}
    [] x.k = "set" -> IF i <= Len(s) /\ ((\E k \in 1..Len(x.cs) : x.cs[k] = SubSeq(s, i, i)) # x.neg)
                      THEN {[e |-> i + 1, g |-> g]} ELSE {}
    [] x.k = "star" -> Repeat(x.x, s, {[e |-> i, g |-> g]})
    [] x.k = "alt" -> UNION {MatchFrom(x.xs[k], s, i, g) : k \in 1..Len(x.xs)}
    [] x.k = "cat" -> MatchSeq(x.xs, s, i, g)
    [] x.k = "grp" -> {[e |-> m.e, g |-> [m.g EXCEPT ![x.n] = SubSeq(s, i, m.e - 1)]] :
                         m \in MatchFrom(x.x, s, i, g)}

MatchSeq(xs, s, i, g) ==
  IF xs = << >> THEN {[e |-> i, g |-> g]}
  ELSE UNION {MatchSeq(Tail(xs), s, m.e, m.g) : m \in MatchFrom(Head(xs), s, i, g)}

Repeat(x, s, ms) ==
  LET more == ms \cup UNION {MatchFrom(x, s, m.e, m.g) : m \in ms}
  IN IF more = ms THEN ms ELSE Repeat(x, s, more)

\* Matches of all of s.
Whole(x, s) == {m \in MatchFrom(x, s, 1, [n \in 1..9 |-> ""]) : m.e = Len(s) + 1}

\* The text that stands for s: pieces are texts or numbers of groups.
RECURSIVE Filled(_, _)
Filled(to, g) ==
  IF to = << >> THEN ""
  ELSE (IF Head(to).g = 0 THEN Head(to).t ELSE g[Head(to).g]) \o Filled(Tail(to), g)

\* The patterns of the generator match in one way only.
Instead(x, s, to) == Filled(to, (CHOOSE m \in Whole(x, s) : TRUE).g)

\* ---- reading the files ------------------------------------------------------------

Quoted(s) ==
  Len(s) >= 2 /\ \/ StartsWith(s, "<") /\ EndsWith(s, ">")
                 \/ StartsWith(s, "\"") /\ EndsWith(s, "\"")

Dir(name) == SubSeq(name, 1, Len(name) - Len(Base(name)))   \* with its slash
Exists(docs, name) == \E i \in 1..Len(docs) : docs[i].name = name
DocNo(docs, name) == CHOOSE i \in 1..Len(docs) : docs[i].name = name

\* The file that a reference denotes: from the working directory, or else
\* next to the file that has the reference, or else next to the ones that led
\* to that (dirs, nearest first).
RECURSIVE Find(_, _, _)
Find(docs, ref, dirs) ==
  LET here == Normalize(ref)
      next == Normalize(Head(dirs) \o ref)
  IN IF Exists(docs, here) THEN here
     ELSE IF dirs = << >> THEN ""
     ELSE IF Exists(docs, next) THEN next ELSE Find(docs, ref, Tail(dirs))

\* What is wrong with an entry ("" if nothing).
Wrong(e) ==
  CASE e.d = "symbol" ->
         IF Len(e.seq) # 4 THEN "Symbol mapping expects a value on the form '[from, visibility, to, visibility]'."
         ELSE IF e.seq[4] \notin {"public", "private"} THEN "Unknown visibility '" \o e.seq[4] \o "'."
         ELSE IF ~Quoted(e.seq[3]) THEN "Expected to-entry to be quoted include, but was '" \o e.seq[3] \o "'"
         ELSE ""
    [] e.d = "include" ->
         IF Len(e.seq) # 4 THEN "Include mapping expects a value on the form '[from, visibility, to, visibility]'."
         ELSE IF e.seq[2] \notin {"public", "private"} THEN "Unknown visibility '" \o e.seq[2] \o "'."
         ELSE IF e.seq[4] \notin {"public", "private"} THEN "Unknown visibility '" \o e.seq[4] \o "'."
         ELSE IF ~Quoted(e.seq[1]) /\ ~StartsWith(e.seq[1], "@")
         THEN "Expected from-entry to be quoted filepath or @regex, but was '" \o e.seq[1] \o "'"
         ELSE IF ~Quoted(e.seq[3]) THEN "Expected to-entry to be quoted include, but was '" \o e.seq[3] \o "'"
         ELSE ""
    [] e.d = "ref" -> IF e.val = "" THEN "Mapping ref expects a single filename value." ELSE ""
    [] OTHER -> "Unknown directive '" \o e.d \o "'."

Tell(a, name, m) == [a EXCEPT !.diags = Append(@, [f |-> name, m |-> m])]

Learn(a, e) ==
  IF e.d = "symbol"
  THEN [a EXCEPT !.syms = Append(@, [s |-> e.seq[1], n |-> e.seq[3], p |-> 0]),
                 !.vis = Append(@, <<e.seq[3], e.seq[4]>>)]
  ELSE LET b == [a EXCEPT !.vis = @ \o <<(<<e.seq[1], e.seq[2]>>), (<<e.seq[3], e.seq[4]>>)>>]
       IN IF StartsWith(e.seq[1], "@")
          THEN [b EXCEPT !.rx = Append(@, [key |-> e.seq[1], re |-> e.re, to |-> e.to, raw |-> e.seq[3]])]
          ELSE [b EXCEPT !.edges = Append(@, [f |-> e.seq[1], n |-> e.seq[3], p |-> 0])]

\* open: names of the files that are being read.
RECURSIVE ReadFile(_, _, _, _, _), ReadItems(_, _, _, _, _, _, _)

ReadFile(docs, ref, dirs, open, a) ==
  LET name == Find(docs, ref, dirs)
  IN IF name = "" THEN Tell(a, ref, "Cannot open")
     ELSE IF name \in open THEN Tell(a, name, "Refers to itself")
     ELSE LET D == docs[DocNo(docs, name)]
              b == [a EXCEPT !.read = @ \cup {name}]
          IN CASE D.end = "noarray" -> Tell(b, name, "Root element must be an array.")
               [] D.end = "junk" -> Tell(b, name, "Broken")
               [] OTHER ->
                    LET r == ReadItems(docs, D, dirs, open \cup {name}, b, 1, 1)
                    IN IF r.ok THEN (IF D.end = "cut" THEN Tell(r.a, name, "Broken") ELSE r.a)
                       ELSE r.a

\* The first thing that is wrong ends the file, not the run.
ReadItems(docs, D, dirs, open, a, i, j) ==
  IF i > Len(D.items) THEN [a |-> a, ok |-> TRUE]
  ELSE IF ~D.items[i].obj
  THEN [a |-> Tell(a, D.name, "Mapping directives must be objects."), ok |-> FALSE]
  ELSE IF j > Len(D.items[i].ents) THEN ReadItems(docs, D, dirs, open, a, i + 1, 1)
  ELSE
    LET e == D.items[i].ents[j]
        near == <<Dir(D.name)>> \o SelectSeq(dirs, LAMBDA d : d # Dir(D.name))
    IN IF Wrong(e) # "" THEN [a |-> Tell(a, D.name, Wrong(e)), ok |-> FALSE]
       ELSE ReadItems(docs, D, dirs, open,
              IF e.d = "ref" THEN ReadFile(docs, e.val, near, open, a) ELSE Learn(a, e), i, j + 1)

RECURSIVE ReadAll(_, _, _)
ReadAll(docs, args, a) ==
  IF args = << >> THEN a
  ELSE ReadAll(docs, Tail(args), ReadFile(docs, Head(args), << >>, {}, a))

\* Some of the rules that are built in.
Rule(f, n) == [f |-> f, n |-> n, p |-> 0]
BuiltinEdges ==
  <<Rule("<bits/auxv.h>", "<sys/auxv.h>"), Rule("<bits/stdio_lim.h>", "<stdio.h>"),
    Rule("<bits/atomic_futex.h>", "<future>"),
    Rule("<stdio.h>", "<cstdio>"), Rule("<time.h>", "<ctime>"),
    Rule("<ios>", "<istream>"), Rule("<ios>", "<ostream>"),
    Rule("<istream>", "<fstream>"), Rule("<istream>", "<iostream>"), Rule("<istream>", "<sstream>"),
    Rule("<ostream>", "<fstream>"), Rule("<ostream>", "<iostream>"), Rule("<ostream>", "<istream>"),
    Rule("<ostream>", "<sstream>")>>
BuiltinVis ==
  {<<n, "private">> : n \in {"<bits/auxv.h>", "<bits/stdio_lim.h>", "<bits/atomic_futex.h>"}}
  \cup {<<n, "public">> : n \in {"<sys/auxv.h>", "<stdio.h>", "<future>", "<cstdio>", "<time.h>", "<ctime>",
                                 "<ios>", "<istream>", "<ostream>", "<fstream>", "<iostream>", "<sstream>"}}
Sym(s, n) == [s |-> s, n |-> n, p |-> 0]
BuiltinSyms ==
  <<Sym("cc_t", "<termios.h>"), Sym("clock_t", "<time.h>"), Sym("clock_t", "<sys/types.h>"),
    Sym("FILE", "<stdio.h>")>>

None == [edges |-> << >>, vis |-> << >>, syms |-> << >>, rx |-> << >>, diags |-> << >>, read |-> {}]

Maps(docs, args) == ReadAll(docs, args, None)

\* ---- applying expressions to the headers that were seen ------------------------------

\* All rules with the same expression act together, in the order of the
\* expressions (keys gives it), on one header after the other.
SameKey(rx, key) == SelectSeq(rx, LAMBDA r : r.key = key)
Acts(rx, key, h) ==
  LET rs == SameKey(rx, key)
  IN /\ rs # << >>
     /\ Whole(rs[1].re, h) # {}
     /\ \A k \in 1..Len(rs) : rs[k].raw # h

RECURSIVE ExpandHdr(_, _, _, _, _)
ExpandHdr(edges, rx, keys, hdrs, i) ==
  IF i > Len(hdrs) THEN edges
  ELSE
    LET h == hdrs[i]
        RECURSIVE Rules(_, _)
        Rules(e, j) ==
          IF j > Len(keys) THEN e
          ELSE LET rs == SameKey(rx, keys[j])
               IN Rules(IF Acts(rx, keys[j], h)
                        THEN e \o [k \in 1..Len(rs) |->
                               [f |-> h, n |-> Instead(rs[k].re, h, rs[k].to), p |-> 0]]
                        ELSE e, j + 1)
    IN ExpandHdr(Rules(edges, 1), rx, keys, hdrs, i + 1)

\* The visibility that an expression has gets to the headers it matches.
RxVis(rx, keys, vis, hdrs) ==
  {<<hdrs[i], IF <<keys[j], "private">> \in vis THEN "private" ELSE "public">> :
     <<i, j>> \in {ij \in (1..Len(hdrs)) \X (1..Len(keys)) : Acts(rx, keys[ij[2]], hdrs[ij[1]])}}

\* ---- laws ---------------------------------------------------------------------------
\* Whatever can be reached over the rules, found without following them in order.
RECURSIVE Reach(_, _)
Reach(edges, S) ==
  LET N == S \cup {edges[i].n : i \in {k \in 1..Len(edges) : edges[k].f \in S}}
  IN IF N = S THEN S ELSE Reach(edges, N)

TargetsOf(edges, n) == {edges[i].n : i \in {k \in 1..Len(edges) : edges[k].f = n}}

ClosureLaw(pk) ==
  \A n \in {pk.edges[i].f : i \in 1..Len(pk.edges)} :
    LET c == Closure(pk, n)
    IN /\ {c[i].n : i \in 1..Len(c)} = Reach(pk.edges, TargetsOf(pk.edges, n))
       /\ \A i, j \in 1..Len(c) : c[i].n = c[j].n => i = j

\* Every entry of a file that is read, up to the first wrong one, is in force,
\* and nothing else is.
GoodEntries(D) ==
  LET all == [i \in 1..Len(D.items) |-> IF D.items[i].obj THEN D.items[i].ents
                                        ELSE <<[d |-> "none", seq |-> << >>, val |-> ""]>>]
      flat == IF D.end \in {"noarray", "junk"} THEN << >> ELSE FlattenSeq(all)
      bad == {i \in 1..Len(flat) : Wrong(flat[i]) # ""}
      last == IF bad = {} THEN Len(flat) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN SubSeq(flat, 1, last)

ReadLaw(docs, m) ==
  LET good == [d \in 1..Len(docs) |-> GoodEntries(docs[d])]
      es == {<<d, i>> \in (1..Len(docs)) \X (1..20) : docs[d].name \in m.read /\ i <= Len(good[d])}
      ent(x) == good[x[1]][x[2]]
  IN /\ \A x \in {y \in es : ent(y).d = "ref"} :
          LET v == ent(x).val
              here == Normalize(v)
              there == Normalize(Dir(docs[x[1]].name) \o v)
          IN IF Exists(docs, here) THEN here \in m.read
             ELSE Exists(docs, there) => there \in m.read
     /\ \A x \in es :
          CASE ent(x).d = "symbol" -> \E i \in 1..Len(m.syms) : m.syms[i].s = ent(x).seq[1] /\ m.syms[i].n = ent(x).seq[3]
            [] ent(x).d = "include" /\ StartsWith(ent(x).seq[1], "@") ->
                 \E i \in 1..Len(m.rx) : m.rx[i].key = ent(x).seq[1] /\ m.rx[i].raw = ent(x).seq[3]
            [] ent(x).d = "include" -> \E i \in 1..Len(m.edges) : m.edges[i].f = ent(x).seq[1] /\ m.edges[i].n = ent(x).seq[3]
            [] OTHER -> TRUE
     /\ \A i \in 1..Len(m.edges) : \E x \in es :
          ent(x).d = "include" /\ ent(x).seq[1] = m.edges[i].f /\ ent(x).seq[3] = m.edges[i].n
     /\ \A i \in 1..Len(m.syms) : \E x \in es :
          ent(x).d = "symbol" /\ ent(x).seq[1] = m.syms[i].s /\ ent(x).seq[3] = m.syms[i].n
=============================================================================
