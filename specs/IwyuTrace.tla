----------------------------- MODULE IwyuTrace ------------------------------
(* Reads the programs of in.ndjson and says what the analyser advises.      *)
EXTENDS IwyuLaws

Progs == ndJsonDeserialize("in.ndjson")
ProgramOf(i) == Progs[i]

VARIABLES phase, broken   \* broken: laws that the advice does not obey

Init == /\ sid \in 1..Len(Progs)
        /\ w = StartW(Progs[sid])
        /\ stack = StartStack(Progs[sid])
        /\ phase = "read" /\ broken = {}

LineOut(P, r, x) ==
  [k |-> x.k, n |-> x.n, l |-> x.l, alt |-> IF x.k = "fwd" THEN AltOf(P, x) ELSE 0, pres |-> x.pres, des |-> x.des,
   why |-> IF x.k = "inc" /\ x.des THEN SetToSeq(WhyOf(P, r, x.n)) ELSE << >>]

Result(P, o) ==
  LET laws == Law(P, o)
  IN
  [id |-> sid, bad |-> o.w.bad, diags |-> o.w.diags, mapdiags |-> o.w.maps.diags, status |-> Status(P, o),
   laws |-> SetToSeq({p \in DOMAIN laws : ~laws[p]}),
   assoc |-> SetToSeq({FirstNameIn(P, o.w, P.main, a) : a \in o.w.assoc}),
   files |-> [i \in 1..Len(o.order) |->
     LET f == o.order[i]
     IN [f |-> f, text |-> FileText(P, o.w, o.adv[f]),
         lines |-> [k \in 1..Len(o.adv[f].lines) |->
                               LineOut(P, o.adv[f], o.adv[f].lines[k])]]]]

Conclude ==
  /\ phase = "read" /\ Done
  /\ phase' = "done"
  /\ IF w.bad THEN PrintT("@@" \o ToJson([id |-> sid, bad |-> TRUE])) /\ broken' = {}
     ELSE LET r == Result(prog, Outcome(prog, w))
          IN PrintT("@@" \o ToJson(r)) /\ broken' = Range2(r.laws)
  /\ UNCHANGED vars

TNext == (Next /\ UNCHANGED <<phase, broken>>) \/ Conclude

\* Open ranges belong to files that are being read; ranges do not nest.
OpenOk ==
  /\ \A o \in w.open : \E i \in 1..Len(stack) : stack[i].f = o.f
  /\ \A o \in w.open, q \in w.open : o.f = q.f => o = q
  /\ \A r \in w.ranges : r.a < r.b

LawsOk == broken = {}
=============================================================================
