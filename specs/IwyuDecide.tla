----------------------------- MODULE IwyuDecide -----------------------------
(* What the analyser advises for one file, given everything that reading    *)
(* the program found out.                                                   *)
(*                                                                          *)
(* P is the program (see IwyuWalk), w the state after reading it, pk the    *)
(* finished include picker, T the transitive inclusion relation.            *)
EXTENDS IwyuMaps, IwyuSpell

Range2(s) == {s[i] : i \in 1..Len(s)}
\* The usual name of f, which is its path, in quotes, if no search directory
\* leads to it.
Q(P, f) == P.files[f].q
Absolute(n) == StartsWith(n, "\"/")

\* The directory of f, with a slash at its end.
DirOf(path) == SubSeq(path, 1, Len(path) - Len(Base(path)))

\* The name by which f would include t.
NameFrom(P, f, t) ==
  LET q == Q(P, t)
      here == "\"" \o DirOf(P.files[f].path)
  IN IF Absolute(q) /\ StartsWith(q, here) THEN "\"" \o SubSeq(q, Len(here) + 1, Len(q)) ELSE q

\* ---- declarations ------------------------------------------------------

DeclsOf(w, e) == SelectSeq(w.decl, LAMBDA d : d.e = e)
DefsOf(w, e) == SelectSeq(DeclsOf(w, e), LAMBDA d : d.dfn)
HasDef(w, e) == DefsOf(w, e) # << >>
\* The declaration that a mere mention of a type is attributed to.
MainDecl(w, e) == IF HasDef(w, e) THEN DefsOf(w, e)[1] ELSE DeclsOf(w, e)[1]

InRange(w, kind, f, l) ==
  \E r \in w.ranges : r.k = kind /\ r.f = f /\ r.a <= l /\ l <= r.b
Exported(w, d) == d.m = "export" \/ InRange(w, "e", d.f, d.l)
Pinned(w, d) == d.pin \/ d.m \in {"keep", "export"} \/ InRange(w, "k", d.f, d.l)
                \/ InRange(w, "e", d.f, d.l)

\* ---- classification of uses ---------------------------------------------
\* A use: [k |-> "ptr"|"full"|"fn"|"sym"|"inc", s |-> name, d |-> file of the
\* declaration, dl |-> its line, l |-> line of the use, sg |-> header already
\* chosen or "", ign |-> ignored, ti |-> position of the use in the translation unit]
\* "fn" is a full use of something that is not a class.

SeenBefore(d, f, l) == d.f = f /\ d.l <= l

ClassifyPtr(P, w, T, f, u) ==
  LET e == u.s
      inhibited == <<f, e>> \in w.nofwd
      defhere == \E i \in 1..Len(DeclsOf(w, e)) :
                   DeclsOf(w, e)[i].dfn /\ SeenBefore(DeclsOf(w, e)[i], f, u.l)
      \* from the declaration that the use is of backwards, and around;
      \* a file that includes this one cannot serve it
      all == DeclsOf(w, e)
      from == {i \in 1..Len(all) : all[i].f = u.d /\ all[i].l = u.dl}
      at == IF from = {} THEN Len(all) ELSE CHOOSE i \in from : TRUE
      around == [i \in 1..Len(all) |-> all[IF i <= at THEN at + 1 - i ELSE Len(all) + at + 1 - i]]
      ex == SelectSeq(around, LAMBDA d : Exported(w, d) /\ (d.f = f \/ <<d.f, f>> \notin T))
      delicate == Delicate(P, e) /\ HasDef(w, e)
      v == IF inhibited \/ delicate THEN [u EXCEPT !.k = "full"] ELSE u
      v2 == IF v.k = "ptr" /\ ex # << >>
            THEN [v EXCEPT !.k = "full", !.d = ex[1].f, !.dl = ex[1].l] ELSE v
      \* without forward declarations: fall back on a header
      ds == DeclsOf(w, e)
      start == CHOOSE i \in 1..Len(ds) : ds[i].f = v2.d /\ ds[i].l = v2.dl
      RECURSIVE Back(_, _)
      Back(i, promote) ==
        IF i = 0 THEN [pr |-> promote, i |-> 0]
        ELSE IF SeenBefore(ds[i], f, u.l) THEN Back(i - 1, FALSE)
        ELSE IF ds[i].ti < u.ti THEN [pr |-> TRUE, i |-> i]
        ELSE Back(i - 1, promote)
      b == Back(start, TRUE)
      v3 == IF b.i # 0 THEN [v2 EXCEPT !.d = ds[b.i].f, !.dl = ds[b.i].l] ELSE v2
      v4 == IF b.pr THEN [v3 EXCEPT !.k = "full"] ELSE v3
  IN IF InInline(P, e) THEN [u EXCEPT !.k = "full"]
     ELSE IF defhere THEN [u EXCEPT !.ign = TRUE]
     ELSE IF P.opts.nofwd THEN v4 ELSE v2

ClassifyFull(P, w, T, f, u) ==
  LET e == u.s
      here == [f |-> u.d, l |-> u.dl]
  IN IF u.k = "full" /\ u.d = f /\ ~SeenBefore(here, f, u.l) /\ ~InInline(P, e)
     THEN IF <<f, e>> \in w.nofwd THEN [u EXCEPT !.ign = TRUE] ELSE [u EXCEPT !.k = "ptr"]
     ELSE IF u.k = "full" /\ SeenBefore(here, f, u.l) /\ HasDef(w, e) THEN [u EXCEPT !.ign = TRUE]
     ELSE IF u.k = "fn" /\ \E i \in 1..Len(DeclsOf(w, e)) : SeenBefore(DeclsOf(w, e)[i], f, u.l)
          THEN [u EXCEPT !.ign = TRUE]
     ELSE IF u.k = "full" /\ <<u.d, f>> \in T /\ <<f, e>> \notin w.nofwd /\ \E i \in 1..Len(DeclsOf(w, e)) : SeenBefore(DeclsOf(w, e)[i], f, u.l)
          THEN [u EXCEPT !.k = "ptr"]
     ELSE IF <<u.d, f>> \in T THEN [u EXCEPT !.ign = TRUE]
     ELSE IF P.opts.transitive /\ <<f, u.d>> \notin T THEN [u EXCEPT !.ign = TRUE]
     ELSE u

ClassifySym(P, w, T, f, u) ==
  IF u.d = f \/ <<u.d, f>> \in T \/ (P.opts.transitive /\ <<f, u.d>> \notin T)
  THEN [u EXCEPT !.ign = TRUE] ELSE u

Classify(P, w, T, f, uses) ==
  LET c1 == [i \in 1..Len(uses) |->
               IF uses[i].k = "ptr" THEN ClassifyPtr(P, w, T, f, uses[i]) ELSE uses[i]]
      c2 == [i \in 1..Len(c1) |->
               IF c1[i].k \in {"full", "fn"} /\ ~c1[i].ign
               THEN ClassifyFull(P, w, T, f, c1[i]) ELSE c1[i]]
  IN [i \in 1..Len(c2) |->
        IF c2[i].k = "sym" /\ c2[i].sg = "" /\ ~c2[i].ign
        THEN ClassifySym(P, w, T, f, c2[i]) ELSE c2[i]]

IsFull(u) == u.k \in {"full", "fn", "sym", "inc"}

\* ---- choosing headers -----------------------------------------------------

Names(cands) == [i \in 1..Len(cands) |-> cands[i].n]

\* The name under which file f already includes t, if it does, or would.
NameIn(P, w, f, t) ==
  LET m == SelectSeq(w.incl[f], LAMBDA x : x.t = t)
  IN IF m # << >> THEN m[Len(m)].n ELSE NameFrom(P, f, t)
FirstNameIn(P, w, f, t) ==
  LET m == SelectSeq(w.incl[f], LAMBDA x : x.t = t)
  IN IF m # << >> THEN m[1].n ELSE NameFrom(P, f, t)

\* A candidate is a file or just a name.
AsWritten(P, w, f, c) ==
  IF c.p # 0 /\ (Absolute(c.n) \/ \E i \in 1..Len(w.incl[f]) : w.incl[f][i].t = c.p)
  THEN NameIn(P, w, f, c.p) ELSE c.n

PublicHeaders(P, w, pk, f, u) ==
  LET c == Providers(pk, u.s, Q(P, u.d), u.d, Q(P, f))
  IN [i \in 1..Len(c) |-> AsWritten(P, w, f, c[i])]

\* The headers that an associated file will include, by names that f would use.
Renamed(P, w, f, a, des) ==
  LET mine == {x \in Range2(w.incl[a]) : x.n \in des}
      here == {x \in Range2(w.incl[f]) : NameIn(P, w, a, x.t) \in des}
  IN (des \ {x.n : x \in mine}) \cup {NameIn(P, w, f, x.t) : x \in mine \cup here}

FirstIn(seq, S) ==
  LET m == SelectSeq(seq, LAMBDA x : x \in S) IN IF m = << >> THEN "" ELSE m[1]

Needs(u) == IsFull(u) /\ ~u.ign /\ u.sg = ""

RECURSIVE StepOne(_, _, _, _, _)
StepOne(P, w, direct, f, st) ==   \* st = [i, us, des]
  IF st.i > Len(st.us) THEN st
  ELSE
    LET u == st.us[st.i]
        next ==
          IF u.ign \/ ~IsFull(u) THEN st
          ELSE IF u.sg # "" THEN [st EXCEPT !.des = @ \cup {u.sg}]
          ELSE IF (\E k \in 1..Len(u.pub) : u.pub[k] = NameIn(P, w, f, f)) /\ NameIn(P, w, f, u.d) \in direct
          THEN [st EXCEPT !.des = @ \cup {NameIn(P, w, f, u.d)}, !.us[st.i].sg = NameIn(P, w, f, u.d)]
          ELSE IF Len(u.pub) = 1
          THEN [st EXCEPT !.des = @ \cup {u.pub[1]}, !.us[st.i].sg = u.pub[1]]
          ELSE st
    IN StepOne(P, w, direct, f, [next EXCEPT !.i = @ + 1])

RECURSIVE StepTwo(_, _, _, _)
StepTwo(self, direct, assocdes, st) ==
  IF st.i > Len(st.us) THEN st
  ELSE
    LET u == st.us[st.i]
        c == IF ~Needs(u) THEN << >>
             ELSE SelectSeq(<<FirstIn(u.pub, {self}), FirstIn(u.pub, assocdes),
                              FirstIn(u.pub, direct \cap st.des), FirstIn(u.pub, st.des),
                              FirstIn(u.pub, direct)>>, LAMBDA x : x # "")
        next == IF c = << >> THEN st
                ELSE [st EXCEPT !.us[st.i].sg = c[1],
                                !.des = IF c[1] = self THEN @ ELSE @ \cup {c[1]}]
    IN StepTwo(self, direct, assocdes, [next EXCEPT !.i = @ + 1])

RECURSIVE Cover(_, _)
Cover(rank, st) ==
  LET open == {i \in 1..Len(st.us) : Needs(st.us[i])}
      occ(h) == FoldSet(LAMBDA i, a : a + Cardinality({k \in 1..Len(st.us[i].pub) : st.us[i].pub[k] = h}), 0, open)
      fst(h) == FoldSet(LAMBDA i, a : a + (IF st.us[i].pub[1] = h
                         THEN Cardinality({k \in 1..Len(st.us[i].pub) : st.us[i].pub[k] = h}) ELSE 0), 0, open)
      hs == UNION {Range2(st.us[i].pub) : i \in open}
      better(a, b) == \/ occ(a) > occ(b)
                      \/ occ(a) = occ(b) /\ fst(a) > fst(b)
                      \/ occ(a) = occ(b) /\ fst(a) = fst(b) /\ rank[a] < rank[b]
      best == CHOOSE h \in hs : \A g \in hs : g = h \/ better(h, g)
  IN IF open = {} THEN st
     ELSE Cover(rank, [st EXCEPT !.des = @ \cup {best},
            !.us = [i \in 1..Len(st.us) |->
                      IF i \in open /\ \E k \in 1..Len(st.us[i].pub) : st.us[i].pub[k] = best
                      THEN [st.us[i] EXCEPT !.sg = best] ELSE st.us[i]]])

\* ---- forward declarations ---------------------------------------------------

\* Decide a use that needs only a declaration: its sg becomes the header that
\* serves it; otherwise its d, dl say which declaration serves it.
DecidePtr(P, w, pk, f, u, effdes, assocs, prev) ==
  LET ds == DeclsOf(w, u.s)
      def == MainDecl(w, u.s)
      cands == IF HasDef(w, u.s)
               THEN LET c == CandidatesFor(pk, Q(P, def.f), def.f, Q(P, f))
                    IN [i \in 1..Len(c) |-> AsWritten(P, w, f, c[i])]
               ELSE << >>
      indes == (\E i \in 1..Len(cands) : cands[i] \in effdes)
               \/ (HasDef(w, u.s) /\ SeenBefore(def, f, u.l))
      same == SelectSeq(ds, LAMBDA d : SeenBefore(d, f, u.l))
      \* unless it is to be removed there
      leaves(d) == \E k \in 1..Len(prev[d.f].lines) :
                     LET y == prev[d.f].lines[k] IN y.k = "fwd" /\ y.pres /\ ~y.des /\ y.dl = d.l
      asso == SelectSeq(ds, LAMBDA d : d.f \in assocs /\ ~leaves(d))
  IN IF indes THEN [u EXCEPT !.sg = NameIn(P, w, f, def.f), !.d = def.f, !.dl = def.l]
     ELSE IF same # << >> THEN [u EXCEPT !.d = same[1].f, !.dl = same[1].l]
     ELSE IF asso # << >> THEN [u EXCEPT !.d = asso[1].f, !.dl = asso[1].l, !.sg = "(associated)"]
     ELSE u

\* ---- the lines of the file ----------------------------------------------------
\* [k |-> "inc"|"fwd", n |-> name of the header or type, l |-> line or 0, t |-> file,
\*  dl |-> line of the declaration, pres, des]

AddLines(w, us, lines0) ==
  LET RECURSIVE Go(_, _)
      Go(i, ls) ==
        IF i > Len(us) THEN ls
        ELSE LET u == us[i]
             IN IF u.ign THEN Go(i + 1, ls)
                ELSE IF IsFull(u)
                THEN IF \E k \in 1..Len(ls) : ls[k].k = "inc" /\ ls[k].n = u.sg THEN Go(i + 1, ls)
                     ELSE Go(i + 1, Append(ls, [k |-> "inc", n |-> u.sg, l |-> 0, t |-> u.d,
                                                dl |-> 0, pres |-> FALSE, des |-> FALSE]))
                ELSE IF u.sg # "" THEN Go(i + 1, ls)
                ELSE IF \E k \in 1..Len(ls) : ls[k].k = "fwd" /\ ls[k].n = u.s
                           /\ (~ls[k].pres \/ (ls[k].t = u.d /\ ls[k].dl = u.dl)) THEN Go(i + 1, ls)
                ELSE Go(i + 1, Append(ls, [k |-> "fwd", n |-> u.s, l |-> 0, t |-> u.d,
                                           dl |-> u.dl, pres |-> FALSE, des |-> FALSE]))
  IN Go(1, lines0)

Mark(us, ls) ==
  [i \in 1..Len(ls) |->
     IF \E k \in 1..Len(us) :
          /\ ~us[k].ign
          /\ IF ls[i].k = "inc" THEN IsFull(us[k]) /\ us[k].sg = ls[i].n
             ELSE ~IsFull(us[k]) /\ us[k].sg = "" /\ us[k].d = ls[i].t /\ us[k].dl = ls[i].dl
                  /\ us[k].s = ls[i].n
     THEN [ls[i] EXCEPT !.des = TRUE] ELSE ls[i]]

Settle(P, w, f, assocdes, ls) ==
  LET a == [i \in 1..Len(ls) |->
              IF ls[i].k = "inc" /\ ls[i].des /\ ~ls[i].pres /\ ls[i].n \in assocdes
              THEN [ls[i] EXCEPT !.des = FALSE] ELSE ls[i]]
      b == [i \in 1..Len(a) |->
              IF \E j \in 1..(i - 1) : a[j].k = a[i].k /\ a[j].n = a[i].n
                   /\ (a[i].k = "inc" \/ (a[j].t = a[i].t /\ a[j].dl = a[i].dl))
              THEN [a[i] EXCEPT !.des = FALSE] ELSE a[i]]
      c == [i \in 1..Len(b) |->
              IF b[i].k = "inc" /\ b[i].pres /\ <<f, b[i].t>> \in w.kept
              THEN [b[i] EXCEPT !.des = TRUE] ELSE b[i]]
      d == [i \in 1..Len(c) |->
              IF c[i].k = "inc" /\ <<f, c[i].n>> \in w.noinc
              THEN [c[i] EXCEPT !.des = FALSE] ELSE c[i]]
      file(x) == IF x.k = "inc" THEN x.t
                 ELSE IF HasDef(w, x.n) THEN MainDecl(w, x.n).f ELSE 0
      pre(x) == file(x) # 0 /\ file(x) \in w.prefix
  IN [i \in 1..Len(d) |->
        IF P.opts.prefix = "add" \/ ~d[i].des \/ (d[i].pres /\ P.opts.prefix = "keep") \/ ~pre(d[i])
        THEN d[i] ELSE [d[i] EXCEPT !.des = FALSE]]

\* ---- one file -------------------------------------------------------------

FwdLines(w, f) ==
  LET ds == SelectSeq(w.decl, LAMBDA d : d.f = f /\ d.cls /\ ~d.dfn)
  IN [i \in 1..Len(ds) |-> [k |-> "fwd", n |-> ds[i].e, l |-> ds[i].l, t |-> f, dl |-> ds[i].l,
                            pres |-> TRUE, des |-> Pinned(w, ds[i])]]

IncLines(w, f) ==
  [i \in 1..Len(w.incl[f]) |->
     [k |-> "inc", n |-> w.incl[f][i].n, l |-> w.incl[f][i].l, t |-> w.incl[f][i].t, dl |-> 0,
      pres |-> TRUE, des |-> FALSE]]

Direct(w, f) == {w.incl[f][i].n : i \in 1..Len(w.incl[f])}

\* prev: the advice for the files decided before (a function from file to
\* [des |-> set of names, ...]).
Decide(P, w, pk, T, f, prev) ==
  LET assocs == IF f = P.main THEN w.assoc ELSE {}
      raw == w.pre[f] \o w.ast[f]
      au == [i \in 1..Cardinality(assocs) |->
               LET a == SetToSeq(assocs)[i]
               IN [k |-> "inc", s |-> "", d |-> a, dl |-> 0, l |-> 0,
                   sg |-> FirstNameIn(P, w, f, a), ign |-> FALSE, ti |-> 0, pub |-> << >>]]
      cl == Classify(P, w, T, f, raw) \o au
      us0 == [i \in 1..Len(cl) |->
                IF Needs(cl[i]) THEN [cl[i] EXCEPT !.pub = PublicHeaders(P, w, pk, f, cl[i])]
                ELSE cl[i]]
      direct == Direct(w, f)
      assocdes == UNION {Renamed(P, w, f, a, prev[a].des) : a \in assocs}
      assocdirect == UNION {Direct(w, a) : a \in assocs}
      one == StepOne(P, w, direct, f, [i |-> 1, us |-> us0, des |-> {}])
      self == NameIn(P, w, f, f)
      two == StepTwo(self, direct, assocdes, [one EXCEPT !.i = 1])
      three == Cover(P.rank, two)
      des == {h \in three.des : h \notin w.nonhdr \/ h \in direct}
      effdes == des \cup assocdes
      fin == [i \in 1..Len(three.us) |->
                LET u == three.us[i]
                IN IF u.ign THEN u
                   ELSE IF ~IsFull(u) THEN DecidePtr(P, w, pk, f, u, effdes, assocs, prev)
                   ELSE IF u.sg \in w.nonhdr /\ u.sg \notin (direct \cup assocdirect)
                   THEN [u EXCEPT !.ign = TRUE]
                   ELSE IF u.sg = self THEN [u EXCEPT !.ign = TRUE] ELSE u]
      ls == AddLines(w, fin, IncLines(w, f) \o FwdLines(w, f))
      settled == Settle(P, w, f, assocdes, Mark(fin, ls))
  IN [f |-> f, des |-> des, us |-> fin, lines |-> settled]

\* The names that the comment of an include line gives, with their counts.
WhyName(P, e) == IF P.fmt.long THEN P.long[e] ELSE P.short[e]
WhyOf(P, r, name) ==
  LET full == SelectSeq(r.us, LAMBDA u : ~u.ign /\ IsFull(u) /\ u.sg = name)
      ptr == SelectSeq(r.us, LAMBDA u : ~u.ign /\ ~IsFull(u) /\ u.sg = name)
      nf == [i \in 1..Len(full) |-> WhyName(P, full[i].s)]
      np == [i \in 1..Len(ptr) |-> WhyName(P, ptr[i].s)]
      fs == Range2(nf)
      ps == Range2(np) \ fs
  IN {<<s, FALSE, Cardinality({i \in 1..Len(nf) : nf[i] = s})>> : s \in fs}
     \cup {<<s, TRUE, Cardinality({i \in 1..Len(np) : np[i] = s})>> : s \in ps}
=============================================================================
