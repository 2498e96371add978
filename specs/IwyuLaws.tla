------------------------------ MODULE IwyuLaws ------------------------------
(* What must be true of the advice, whatever the program.  Each law is      *)
(* stated on the text of the program and the result, not on the steps that  *)
(* led to it.  o = Outcome(P, w).                                           *)
EXTENDS IwyuReport

Reported(o) == Range2(o.order)
LinesOf(o, f) == o.adv[f].lines
Desired(o, f) == {LinesOf(o, f)[k].n : k \in {j \in 1..Len(LinesOf(o, f)) :
                     LinesOf(o, f)[j].k = "inc" /\ LinesOf(o, f)[j].des}}

\* ---- ranges of marks, from the text alone --------------------------------
\* Scan(P, f): the marks of a file read from top to bottom:
\* st = [m |-> mode, a |-> first line, rs |-> ranges, ds |-> diagnostics]
Op(P, f, l) ==
  LET L == P.files[f].lines[l]
  IN IF L.k = "prag" THEN L.op ELSE L.m

Complaint(op) ==
  CASE op = "end_exports" -> "end_exports without a begin_exports"
    [] op = "end_keep" -> "end_keep without a begin_keep"
    [] OTHER -> ""

RECURSIVE Scan(_, _, _, _)
Scan(P, f, l, st) ==
  IF l > Len(P.files[f].lines)
  THEN [st EXCEPT !.ds = IF st.m = "" THEN @ ELSE @ \cup {<<st.a,
          "begin_" \o st.m \o " without an end_" \o st.m>>}]
  ELSE
    LET op == Op(P, f, l)
        s == IF op = "" THEN st
             ELSE IF st.m # ""
             THEN IF op = "end_" \o st.m
                  THEN [st EXCEPT !.m = "", !.rs = @ \cup {<<st.m, st.a, l>>}]
                  ELSE [st EXCEPT !.ds = @ \cup {<<l, "Expected end_" \o st.m \o " pragma">>}]
             ELSE IF op = "begin_exports" THEN [st EXCEPT !.m = "exports", !.a = l]
             ELSE IF op = "begin_keep" THEN [st EXCEPT !.m = "keep", !.a = l]
             ELSE IF Complaint(op) # "" THEN [st EXCEPT !.ds = @ \cup {<<l, Complaint(op)>>}]
             ELSE st
    IN Scan(P, f, l + 1, s)

RangesLaw(P, o) ==
  \A i \in 1..Len(o.w.entered) :
    LET f == o.w.entered[i]
        s == Scan(P, f, 1, [m |-> "", a |-> 0, rs |-> {}, ds |-> {}])
        seen == {<<o.w.diags[d].l, o.w.diags[d].m>> : d \in {k \in 1..Len(o.w.diags) : o.w.diags[k].f = f}}
    IN /\ s.rs = {<<IF r.k = "e" THEN "exports" ELSE "keep", r.a, r.b>> : r \in {q \in o.w.ranges : q.f = f}}
       /\ s.ds \subseteq seen
       /\ \A d \in seen : d \in s.ds \/ Op(P, f, d[1]) \notin {"end_keep", "end_exports", "begin_keep", "begin_exports", "keep", "export"}

Within(P, f, l, m) ==
  \E r \in Scan(P, f, 1, [m |-> "", a |-> 0, rs |-> {}, ds |-> {}]).rs : r[1] = m /\ r[2] < l /\ l < r[3]

\* ---- what is marked stays ---------------------------------------------------
KeepMark(P, f, l) == P.files[f].lines[l].m = "keep" \/ Within(P, f, l, "keep")
ExportMark(P, f, l) == P.files[f].lines[l].m = "export" \/ Within(P, f, l, "exports")
First(o, f, k) ==
  \A j \in 1..(k - 1) : LinesOf(o, f)[j].k # LinesOf(o, f)[k].k \/ LinesOf(o, f)[j].n # LinesOf(o, f)[k].n
Forbidden(o, f, y) == y.k = "inc" /\ <<f, y.n>> \in o.w.noinc
ByPrefix(P, o, y) ==
  /\ P.opts.prefix = "remove"
  /\ LET t == IF y.k = "inc" THEN y.t ELSE IF HasDef(o.w, y.n) THEN MainDecl(o.w, y.n).f ELSE 0
     IN t \in o.w.prefix

KeptLaw(P, o) ==
  \A f \in Reported(o) : \A k \in 1..Len(LinesOf(o, f)) :
    LET y == LinesOf(o, f)[k]
        why == \/ KeepMark(P, f, y.l)
               \/ ExportMark(P, f, y.l) /\ First(o, f, k)
               \/ y.k = "inc" /\ y.t \in o.w.keep
               \/ y.k = "inc" /\ \E i \in 1..Len(P.files[y.t].lines) :
                    P.files[y.t].lines[i].k = "prag" /\ P.files[y.t].lines[i].op = "always_keep"
                    /\ y.t \in o.w.akeep /\ First(o, f, k)
                    /\ y.n = NameIn(P, o.w, f, y.t)
    IN (y.pres /\ why /\ ~Forbidden(o, f, y) /\ ~ByPrefix(P, o, y)
        /\ (y.k = "fwd" => First(o, f, k))) => y.des

\* ---- what is forbidden is not advised -----------------------------------------
Says(P, f, op, a) ==
  \E l \in 1..Len(P.files[f].lines) :
    LET L == P.files[f].lines[l] IN L.k = "prag" /\ L.op = op /\ L.a = a /\ L.ok
    /\ \A m \in {"exports", "keep"} : ~Within(P, f, l, m)

SuppressLaw(P, o) ==
  \A f \in Reported(o) : \A k \in 1..Len(LinesOf(o, f)) :
    LET y == LinesOf(o, f)[k]
    IN /\ (y.k = "inc" /\ y.des /\ f \in Range2(o.w.entered)) =>
            ~(Says(P, f, "no_include", y.n) /\ <<f, y.n>> \in o.w.noinc)
       /\ (y.k = "fwd" /\ y.des /\ ~y.pres) => <<f, y.n>> \notin o.w.nofwd /\ ~P.opts.nofwd

\* ---- private headers -------------------------------------------------------------
\* A header that is private and has a public replacement is not asked for.
PrivateLaw(P, o) ==
  \A f \in Reported(o) : \A k \in 1..Len(LinesOf(o, f)) :
    LET y == LinesOf(o, f)[k]
        named == {d \in Files(P) : y.n \in {Q(P, d), NameFrom(P, f, d)}}
        repl(d) == {v \in Range2(Closure(o.pk, Q(P, d))) : ~Private(o.pk, v.n, v.p)}
    IN (y.k = "inc" /\ y.des /\ ~y.pres) =>
         \A d \in named : (Private(o.pk, Q(P, d), d) /\ repl(d) # {}) =>
           \/ <<Q(P, f), d>> \in o.w.friends
           \/ \E e \in Files(P) \ {d} : <<Q(P, f), e>> \in o.w.friends /\ NameIn(P, o.w, f, e) = y.n
           \* reached as a replacement under a name that is itself not private
           \/ \E x \in 1..Len(o.pk.edges) : o.pk.edges[x].n = y.n /\ ~Private(o.pk, y.n, o.pk.edges[x].p)

\* ---- exporting ----------------------------------------------------------------------
\* Nothing is added for a use that an existing include provides, unless that
\* header is needed anyway for a use that nothing else provides.
Provided(o, f, u) == Range2(u.pub)
CreditLaw(P, o) ==
  \A f \in Reported(o) :
    LET us == o.adv[f].us
        direct == Direct(o.w, f)
    IN \A k \in 1..Len(us) :
         (IsFull(us[k]) /\ ~us[k].ign /\ us[k].sg \notin direct /\ Provided(o, f, us[k]) \cap direct # {}) =>
            \/ us[k].sg = NameIn(P, o.w, f, f)
            \/ \E a \in o.w.assoc : f = P.main /\ us[k].sg \in Renamed(P, o.w, f, a, o.adv[a].des)
            \/ \E m \in 1..Len(us) : us[m].sg = us[k].sg /\ ~us[m].ign /\ Len(us[m].pub) <= 1

\* ---- every use is served, every line serves ---------------------------------------------
ServedLaw(P, o) ==
  \A f \in Reported(o) :
    LET us == o.adv[f].us
        assocdes == IF f = P.main THEN UNION {Renamed(P, o.w, f, a, o.adv[a].des) : a \in o.w.assoc} ELSE {}
    IN /\ \A k \in 1..Len(us) :
            (IsFull(us[k]) /\ ~us[k].ign) =>
               /\ us[k].sg # ""
               /\ us[k].pub = << >> \/ us[k].sg \in Provided(o, f, us[k]) \/ us[k].sg = NameIn(P, o.w, f, us[k].d)
               /\ \/ us[k].sg \in Desired(o, f)
                  \/ us[k].sg \in assocdes
                  \/ <<f, us[k].sg>> \in o.w.noinc
                  \/ P.opts.prefix # "add"
       /\ \A k \in 1..Len(LinesOf(o, f)) :
            LET y == LinesOf(o, f)[k]
            IN (y.k = "inc" /\ y.des /\ <<f, y.t>> \notin o.w.kept) =>
                 \E m \in 1..Len(us) : ~us[m].ign /\ IsFull(us[m]) /\ us[m].sg = y.n

\* ---- the associated header -----------------------------------------------------------------
AssociatedLaw(P, o) ==
  \A k \in 1..Len(LinesOf(o, P.main)) :
    LET y == LinesOf(o, P.main)[k]
        own == {FirstNameIn(P, o.w, P.main, a) : a \in o.w.assoc}
        ad == UNION {Renamed(P, o.w, P.main, a, o.adv[a].des) : a \in o.w.assoc}
    IN /\ (y.k = "inc" /\ y.pres /\ y.n \in own /\ First(o, P.main, k) /\ ~Forbidden(o, P.main, y)
           /\ ~ByPrefix(P, o, y)) => y.des
       /\ (y.k = "inc" /\ ~y.pres /\ y.n \in ad) => ~y.des

\* ---- policies --------------------------------------------------------------------------------
PolicyLaw(P, o) ==
  \A f \in Reported(o) : \A k \in 1..Len(LinesOf(o, f)) :
    LET y == LinesOf(o, f)[k]
        t == IF y.k = "inc" THEN y.t ELSE IF HasDef(o.w, y.n) THEN MainDecl(o.w, y.n).f ELSE 0
    IN /\ (P.opts.prefix # "add" /\ t \in o.w.prefix /\ ~y.pres) => ~y.des
       /\ (P.opts.prefix = "remove" /\ t \in o.w.prefix) => ~y.des
       /\ (P.opts.transitive /\ y.k = "inc" /\ y.des /\ ~y.pres) =>
            \E m \in 1..Len(o.adv[f].us) :
              LET u == o.adv[f].us[m] IN u.sg = y.n /\ ~u.ign /\ (<<f, u.d>> \in o.T \/ u.sg = NameIn(P, o.w, f, u.d))

\* ---- forward declarations -----------------------------------------------------------------------
ForwardLaw(P, o) ==
  \A f \in Reported(o) : \A k \in 1..Len(LinesOf(o, f)) :
    LET y == LinesOf(o, f)[k]
        us == o.adv[f].us
        needed == \E m \in 1..Len(us) : us[m].s = y.n /\ ~us[m].ign /\ ~IsFull(us[m]) /\ us[m].sg = ""
    IN y.k = "fwd" =>
         /\ (y.des /\ ~y.pres) => needed
         /\ (y.des /\ y.pres) => needed \/ \E i \in 1..Len(o.w.decl) : o.w.decl[i].f = f /\ o.w.decl[i].l = y.l /\ Pinned(o.w, o.w.decl[i])
         \* it is one that can be declared, and is declared by its text
         /\ Declares(P, TextOf(P, y), y.n, AltOf(P, y))
         /\ (y.des /\ ~y.pres) =>
              /\ ~InInline(P, y.n) /\ ~Undeclarable(P, y.n)
              /\ Delicate(P, y.n) => \A i \in 1..Len(o.w.decl) : o.w.decl[i].e = y.n /\ o.w.decl[i].dfn => o.w.decl[i].f = f
         /\ (needed /\ \A j \in 1..Len(LinesOf(o, f)) : ~(LinesOf(o, f)[j].k = "fwd" /\ LinesOf(o, f)[j].n = y.n /\ LinesOf(o, f)[j].des))
              => ByPrefix(P, o, y) \/ P.opts.prefix = "keep"

\* ---- mappings ---------------------------------------------------------------------------------
\* A private header is only asked for if no public one can be reached from it.
MappingLaw(P, o) ==
  /\ ClosureLaw(o.pk)
  /\ \A f \in Reported(o) : \A k \in 1..Len(o.adv[f].us) :
       LET u == o.adv[f].us[k]
           reach == Reach(o.pk.edges, {Q(P, u.d)})
           values == {<<Q(P, u.d), u.d>>} \cup
                     {<<o.pk.edges[e].n, o.pk.edges[e].p>> : e \in {i \in 1..Len(o.pk.edges) : o.pk.edges[i].f \in reach}}
           can == {v[1] : v \in {v \in values : ~Private(o.pk, v[1], v[2])}}
           \* a name may come with the file it stands for or without
           sure == {c \in can : \A v \in values : v[1] = c => ~Private(o.pk, v[1], v[2])}
       IN (u.pub # << >> /\ \A i \in 1..Len(o.pk.syms) : o.pk.syms[i].s # u.s) =>
            \/ <<Q(P, f), u.d>> \in o.w.friends
            \/ \A i \in 1..Len(u.pub) :
                 \/ u.pub[i] \in can
                 \/ \E c \in can : c # u.pub[i] /\ \E d \in Files(P) : Q(P, d) = c /\ AsWritten(P, o.w, f, [n |-> c, p |-> d]) = u.pub[i]
                 \/ \E e \in 1..Len(o.pk.edges) : o.pk.edges[e].p # 0 /\ u.pub[i] \in {o.pk.edges[e].n, AsWritten(P, o.w, f, o.pk.edges[e])}
                 \/ sure = {} /\ u.pub = <<AsWritten(P, o.w, f, [n |-> Q(P, u.d), p |-> u.d])>>

\* ---- names --------------------------------------------------------------------------------------
\* The usual name of a file: by the innermost search directory around it.
QuotedAs(P, path) ==
  LET around == {i \in 1..Len(P.dirs) : StartsWith(path, P.dirs[i].p)}
      i == CHOOSE i \in around : \A j \in around : Len(P.dirs[j].p) <= Len(P.dirs[i].p)
      rest == SubSeq(path, Len(P.dirs[i].p) + 1, Len(path))
  IN IF around = {} THEN "\"" \o path \o "\""
     ELSE IF P.dirs[i].k = "-isystem" THEN "<" \o rest \o ">" ELSE "\"" \o rest \o "\""

\* The file that the compiler finds where file f includes n (0: none).
Found(P, f, n) ==
  LET name == SubSeq(n, 2, Len(n) - 1)
      quoted == StartsWith(n, "\"")
      of(k) == SelectSeq(P.dirs, LAMBDA d : d.k = k)
      places == IF StartsWith(name, "/") THEN <<"">>
                ELSE LET ds == (IF quoted THEN of("-iquote") ELSE << >>) \o of("-I") \o of("-isystem")
                     IN (IF quoted THEN <<DirOf(P.files[f].path)>> ELSE << >>) \o [i \in 1..Len(ds) |-> ds[i].p]
      at(i) == {g \in Files(P) : P.files[g].path = Normalize(places[i] \o name)}
      hits == {i \in 1..Len(places) : at(i) # {}}
  IN IF hits = {} THEN 0 ELSE CHOOSE g \in at(CHOOSE i \in hits : \A j \in hits : i <= j) : TRUE

\* Names lead to the headers that are meant, and no header is taken for two.
NamingLaw(P, o) ==
  LET authors(n) == \E f \in Files(P) : \E l \in 1..Len(P.files[f].lines) :
                      P.files[f].lines[l].op = "private_include" /\ P.files[f].lines[l].a = n
  IN
  P.dirs = << >> \/
  /\ \A f \in Files(P) : Q(P, f) = QuotedAs(P, P.files[f].path)
  /\ \A f \in Reported(o) : \A k \in 1..Len(LinesOf(o, f)) :
       LET ls == LinesOf(o, f)
           y == ls[k]
           g == Found(P, f, y.n)
           us == o.adv[f].us
       IN (y.k = "inc" /\ y.des) =>
            /\ y.pres => g = y.t
            /\ (~y.pres /\ ~authors(y.n)) =>
                 /\ g # 0
                 /\ \A m \in 1..Len(us) : (us[m].sg = y.n /\ ~us[m].ign /\ IsFull(us[m])) =>
                      \/ g = us[m].d
                      \/ \E v \in Range2(Closure(o.pk, Q(P, us[m].d)) \o SymClosure(o.pk, us[m].s)) : v.n = Q(P, g)
                 /\ \A j \in 1..Len(ls) : (j # k /\ ls[j].k = "inc" /\ ~authors(ls[j].n)) => Found(P, f, ls[j].n) # g

\* ---- all that are asked for ------------------------------------------------------------------
\* Text that a condition leaves out says nothing.
ReadText(P, skipped) ==
  LET line(f, l) == IF <<f, l>> \in skipped THEN [P.files[f].lines[l] EXCEPT !.k = "nop", !.m = "", !.op = ""]
                    ELSE P.files[f].lines[l]
  IN IF skipped = {} THEN P
     ELSE [P EXCEPT !.files = [f \in 1..Len(P.files) |->
             [P.files[f] EXCEPT !.lines = [l \in 1..Len(P.files[f].lines) |-> line(f, l)]]]]

Law(program, o) ==
  LET P == ReadText(program, o.w.skipped) IN
  [R01 |-> Consistent(P, o), P01 |-> KeptLaw(P, o), P02 |-> SuppressLaw(P, o), P03 |-> RangesLaw(P, o),
   P04 |-> PrivateLaw(P, o), P05 |-> CreditLaw(P, o), D01 |-> ServedLaw(P, o), D03 |-> AssociatedLaw(P, o),
   D04 |-> PolicyLaw(P, o), D05 |-> ForwardLaw(P, o), M01 |-> MappingLaw(P, o), M02 |-> ReadLaw(P.docs, o.w.maps),
   N01 |-> NamingLaw(P, o)]
=============================================================================
