----------------------------- MODULE IwyuPicker -----------------------------
(* The include picker: which headers may stand for a header or a symbol.    *)
(*                                                                          *)
(* A picker is a record                                                     *)
(*   edges : sequence of [f |-> name, n |-> name, p |-> file or 0]          *)
(*           "f is provided by n" in the order in which the rules came      *)
(*   vis   : set of <<name, "public"/"private">> (names are quoted)         *)
(*   pvis  : set of files (numbers) marked private by path                  *)
(*   syms  : sequence of [s |-> symbol, n |-> name, p |-> 0]                *)
(*   friends : set of <<name of a user, file>>                              *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Kids(edges, n) == SelectSeq(edges, LAMBDA e : e.f = n)

RECURSIVE Dfs(_, _, _)
\* Everything reachable from the entries in pend, each name once, in
\* depth-first order.
Dfs(edges, pend, acc) ==
  IF pend = << >> THEN acc
  ELSE LET v == Head(pend)
       IN IF \E i \in 1..Len(acc) : acc[i].n = v.n
          THEN Dfs(edges, Tail(pend), acc)
          ELSE Dfs(edges, Kids(edges, v.n) \o Tail(pend),
                   Append(acc, [n |-> v.n, p |-> v.p]))

\* The transitive mapping of a name.
Closure(pk, n) == Dfs(pk.edges, Kids(pk.edges, n), << >>)

\* What the symbol map says of a symbol, every name with its mapping.
SymClosure(pk, s) ==
  LET es == SelectSeq(pk.syms, LAMBDA e : e.s = s)
      all == FlattenSeq([i \in 1..Len(es) |-> <<[n |-> es[i].n, p |-> es[i].p]>> \o Closure(pk, es[i].n)])
      first == {i \in 1..Len(all) : \A j \in 1..(i - 1) : all[j].n # all[i].n}
      RECURSIVE Pick(_)
      Pick(i) == IF i > Len(all) THEN << >>
                 ELSE (IF i \in first THEN <<all[i]>> ELSE << >>) \o Pick(i + 1)
  IN Pick(1)

\* Private wins over public where rules contradict each other; a name that no
\* rule speaks of has the visibility of its path, and is public by default.
Explicit(pk, n) ==
  IF <<n, "private">> \in pk.vis THEN "private"
  ELSE IF <<n, "public">> \in pk.vis THEN "public" ELSE "none"

Private(pk, n, p) ==
  \/ Explicit(pk, n) = "private"
  \/ Explicit(pk, n) = "none" /\ p # 0 /\ p \in pk.pvis

MarkedPublic(pk, n) == Explicit(pk, n) = "public"

PublicOf(pk, values) == SelectSeq(values, LAMBDA v : ~Private(pk, v.n, v.p))

\* Headers that may provide the contents of file d (named q) to the file u
\* (named uq), best first.
FileCandidates(pk, q, d) ==
  LET pub == PublicOf(pk, Closure(pk, q))
      self == [n |-> q, p |-> d]
  IN IF pub = << >> \/ ~Private(pk, q, d) THEN <<self>> \o pub ELSE pub

CandidatesFor(pk, q, d, uq) ==
  IF <<uq, d>> \in pk.friends THEN <<[n |-> q, p |-> d]>>
  ELSE FileCandidates(pk, q, d)

\* ... and headers that may provide the symbol s declared in file d.
Providers(pk, s, q, d, uq) ==
  LET sy == PublicOf(pk, SymClosure(pk, s))
  IN IF sy # << >> THEN sy ELSE CandidatesFor(pk, q, d, uq)

\* Does some public header have to be found for d, but there is none?
NoPublic(pk, q, d, uq) ==
  /\ <<uq, d>> \notin pk.friends
  /\ LET c == FileCandidates(pk, q, d)
     IN Len(c) = 1 /\ Private(pk, c[1].n, c[1].p)

HasMapping(pk, qfrom, qto) ==
  qfrom = qto \/ \E i \in 1..Len(Closure(pk, qfrom)) : Closure(pk, qfrom)[i].n = qto
=============================================================================
