----------------------------- MODULE IwyuReport -----------------------------
(* The text of a report.  fmt is [v, max, none, update, quoted, ns]:        *)
(* verbosity, maximum line length, no comments at all, report even when     *)
(* there is nothing to do, quoted includes first, comments with namespaces. *)
EXTENDS IwyuWalk

RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE " " \o Spaces(n - 1)

Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e

\* A name that does not fit is cut, but not to less than three characters.
Cut(s, width) ==
  IF Len(s) <= width THEN s
  ELSE IF width < 6 THEN "" ELSE SubSeq(s, 1, width - 3) \o "..."

\* How the declaration of a forward declaration line begins.
AltOf(P, x) == P.files[x.t].lines[x.dl].alt
TextOf(P, x) == IF x.k = "inc" THEN "#include " \o x.n ELSE FwdText(P, x.n, AltOf(P, x))

\* The first section of a list that a line belongs to.
Ordinal(P, own, x) ==
  IF x.k # "inc" THEN 8
  ELSE IF x.pch THEN 0
  ELSE IF x.n \in own THEN (IF Ends(x.n, "-inl.h\"") THEN 2 ELSE 1)
  ELSE IF P.fmt.quoted /\ Ends(x.n, "\"") THEN 3
  ELSE IF Ends(x.n, ".h>") THEN 4
  ELSE IF Ends(x.n, ">") THEN 5 ELSE 6

Sorted(P, own, ls) ==
  LET idx == [i \in 1..Len(ls) |-> <<Ordinal(P, own, ls[i]), P.rank[TextOf(P, ls[i])], i>>]
      lt(a, b) == \/ a[1] < b[1]
                  \/ a[1] = b[1] /\ a[2] < b[2]
                  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
      s == SortSeq(idx, lt)
  IN [i \in 1..Len(ls) |-> ls[s[i][3]]]

WhyText(w1) == IF w1[2] THEN w1[1] \o " (ptr only)" ELSE w1[1]

\* Names of a comment: most used first, then by name.
WhySorted(P, why) ==
  LET s == SetToSeq(why)
      lt(a, b) == \/ a[3] > b[3]
                  \/ a[3] = b[3] /\ P.rank[WhyText(a)] < P.rank[WhyText(b)]
      r == SortSeq(s, lt)
  IN SelectSeq([i \in 1..Len(r) |-> WhyText(r[i])], LAMBDA t : t # "")

\* A line to print: [t |-> text, s |-> names of its comment]
Printable(P, own, r, x) ==
  LET why == IF x.k = "inc" /\ x.des THEN WhyOf(P, r, x.n) ELSE {}
      nowhy == ~x.des \/ (IF x.k = "inc" THEN why = {} ELSE TRUE)
      at(i) == ToString(P.files[r.f].ln[x.l][i])
      where == "  // lines " \o at(1) \o "-" \o at(2)
  IN IF P.fmt.none THEN [t |-> TextOf(P, x), s |-> << >>]
     ELSE IF nowhy THEN [t |-> IF x.pres THEN TextOf(P, x) \o where ELSE TextOf(P, x), s |-> << >>]
     ELSE IF x.k = "inc" /\ x.n \in own THEN [t |-> TextOf(P, x), s |-> << >>]
     ELSE [t |-> TextOf(P, x), s |-> WhySorted(P, why)]

Fit(P, width, ln) ==
  LET first == "  // for "
      lead == IF Len(ln.t) < width THEN Spaces(width - Len(ln.t)) \o first ELSE first
      RECURSIVE Go(_, _)
      Go(i, acc) ==
        IF i > Len(ln.s) THEN acc
        ELSE LET pre == IF i = 1 THEN lead ELSE ", "
                 used == Len(acc) + Len(pre)
                 room == IF used < P.fmt.max - 1 THEN P.fmt.max - 1 - used ELSE 0
                 nm == IF P.fmt.v >= 3 THEN ln.s[i] ELSE Cut(ln.s[i], room)
             IN IF nm = "" THEN acc ELSE Go(i + 1, acc \o pre \o nm)
  IN Go(1, ln.t)

\* The report of one file, as its lines.
FileText(P, x, r) ==
  LET f == r.f
      name == P.files[f].name
      own == IF f = P.main THEN {FirstNameIn(P, x, f, a) : a \in x.assoc} ELSE {}
      ls0 == [i \in 1..Len(r.lines) |->
               [k |-> r.lines[i].k, n |-> r.lines[i].n, l |-> r.lines[i].l, pres |-> r.lines[i].pres,
                t |-> r.lines[i].t, dl |-> r.lines[i].dl,
                des |-> r.lines[i].des, pch |-> FALSE]]
      ls == Sorted(P, own, ls0)
      adds == SelectSeq(ls, LAMBDA y : y.des /\ ~y.pres)
      rems == SelectSeq(ls, LAMBDA y : ~y.des /\ y.pres)
      full == SelectSeq(ls, LAMBDA y : y.des)
      prt(s) == [i \in 1..Len(s) |-> Printable(P, own, r, s[i])]
      minus(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.t = "- " \o @]]
      head(t) == <<[t |-> "", s |-> << >>], [t |-> t, s |-> << >>]>>
      body == (IF P.fmt.v >= 1
               THEN head(name \o " should add these lines:") \o prt(adds)
                    \o head(name \o " should remove these lines:") \o minus(prt(rems))
               ELSE << >>)
              \o head("The full include-list for " \o name \o ":") \o prt(full)
      width == FoldLeft(LAMBDA a, b : IF b.s # << >> /\ Len(b.t) > a THEN Len(b.t) ELSE a, 0, body)
  IN IF adds = << >> /\ rems = << >> /\ ~P.fmt.update
     THEN <<"", "(" \o name \o " has correct #includes/fwd-decls)">>
     ELSE [i \in 1..Len(body) |-> Fit(P, width, body[i])] \o <<"---">>

Edits(r) == Cardinality({i \in 1..Len(r.lines) : r.lines[i].des # r.lines[i].pres})

\* Exit status: [error, always], 0 standing for "not asked for".
Status(P, o) ==
  IF P.fmt.always # 0 THEN P.fmt.always
  ELSE IF \E i \in 1..Len(o.order) : Edits(o.adv[o.order[i]]) > 0 THEN P.fmt.error ELSE 0

\* ---- what every report must satisfy ---------------------------------------
Has(P, f, y) == y.l \in 1..Len(P.files[f].lines) /\
  LET L == P.files[f].lines[y.l]
  IN IF y.k = "inc" THEN L.k = "inc" /\ L.n = y.n ELSE L.k = "fwd" /\ L.e = y.n

Consistent(P, o) ==
  \A i \in 1..Len(o.order) :
    LET f == o.order[i]
        ls == o.adv[f].lines
    IN /\ \A k \in 1..Len(ls) : ls[k].pres => Has(P, f, ls[k])
       \* nothing is added that is there already or that is removed or added otherwise,
       \* except that a forward declaration moves to before its first use
       /\ \A k, m \in 1..Len(ls) : k # m /\ ls[k].des /\ ~ls[k].pres /\ ls[k].k = ls[m].k
            => \/ ls[k].n # ls[m].n
               \/ ls[k].k = "fwd" /\ ls[m].des
               \/ ls[k].k = "fwd" /\ \E j \in 1..Len(o.w.ast[f]) : o.w.ast[f][j].s = ls[k].n /\ o.w.ast[f][j].l < ls[m].l
       \* each line of the file appears once
       /\ \A k, m \in 1..Len(ls) : k # m /\ ls[k].pres /\ ls[m].pres => ls[k].l # ls[m].l
=============================================================================
