----------------------------- MODULE IwyuRounds -----------------------------
(* Analysis and repair in turns.  A scenario is a sequence of programs, each *)
(* of them what fix_includes.py made of the one before by the advice on it.  *)
(* The program is read as in IwyuWalk; then the advice is concluded, what    *)
(* was made of the last program by the last advice is judged, and reading    *)
(* starts again with the next one.                                           *)
(*   scenario : [id, progs, safe, order]                                     *)
(*   safe  : nothing is removed from headers                                 *)
(*   order : what is like each other stays in order (--noreorder)            *)
(* Lines have, in addition, tx: their text without the reasons.              *)
EXTENDS IwyuLaws

Scens == ndJsonDeserialize("in.ndjson")
ProgramOf(s) == Scens[s[1]].progs[s[2]]
Scen == Scens[sid[1]]

VARIABLES todo,    \* advice on the last program: [f |-> file, some |-> is there
                   \*   any, rem |-> numbers of lines to remove, add |-> texts to add]
          broken   \* laws that are broken

Init == /\ sid \in {<<i, 1>> : i \in 1..Len(Scens)}
        /\ w = StartW(ProgramOf(sid))
        /\ stack = StartStack(ProgramOf(sid))
        /\ todo = << >> /\ broken = {}

\* ---- the advice ------------------------------------------------------------
Own(P, f) == f = P.main \/ ~Scen.safe

Todo(P, o) ==
  [i \in 1..Len(o.order) |->
     LET f == o.order[i]
         ls == o.adv[f].lines
         texts == {k \in 1..Len(ls) : ls[k].des /\ ~ls[k].pres}
         rem == {ls[k].l : k \in {k \in 1..Len(ls) : ~ls[k].des /\ ls[k].pres}}
     IN [f |-> f, some |-> rem # {} \/ texts # {}, rem |-> IF Own(P, f) THEN rem ELSE {}, add |-> {TextOf(P, ls[k]) : k \in texts}]]

NothingToDo(t) == \A i \in 1..Len(t) : t[i].rem = {} /\ t[i].add = {}

\* ---- what was made of it -----------------------------------------------------
Lines(P, f) == P.files[f].lines
Movable(L) == L.k \in {"inc", "fwd"}
Texts(ls) == [i \in 1..Len(ls) |-> ls[i].tx]
CodeOf(P, f) == Texts(SelectSeq(Lines(P, f), LAMBDA L : ~Movable(L) /\ L.tx # ""))
OfName(ls, k, x) == SelectSeq(ls, LAMBDA L : L.k = k /\ (IF k = "inc" THEN "#include " \o L.n ELSE L.tx) = x)

\* What a line includes or declares.
Subjects(ls) == [i \in 1..Len(ls) |-> IF ls[i].k = "inc" THEN "#include " \o ls[i].n ELSE ls[i].tx]
OnlyOnce(s) == SelectSeq([i \in 1..Len(s) |-> IF \E j \in 1..(i - 1) : s[j] = s[i] THEN "" ELSE s[i]], LAMBDA x : x # "")

\* Lines that are like each other: forward declarations, includes of three
\* kinds; the headers of the file itself go their own way.
Alike(P, f, ls, k) ==
  LET own(L) == L.m = "associated" \/ \E g \in Files(P) : Q(P, g) = L.n /\ Canonical(Base(P.files[g].name)) = Canonical(Base(P.files[f].name))
      like(L) == CASE L.k = "fwd" -> 1
                   [] L.k = "inc" /\ ~own(L) -> IF Ends(L.n, ".h>") THEN 2 ELSE IF Ends(L.n, ">") THEN 3 ELSE 4
                   [] OTHER -> 0
  IN OnlyOnce(Subjects(SelectSeq(ls, LAMBDA L : like(L) = k)))

\* The lines that stay of file f.
Rest(P, f, rem) ==
  LET ls == Lines(P, f)
      keep == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : i \notin rem)
  IN [i \in 1..Len(keep) |-> ls[keep[i]]]

Followed(P1, P2, t) ==
  \A f \in Files(P1) :
    LET mine == {i \in 1..Len(t) : t[i].f = f}
        rem == UNION {t[i].rem : i \in mine}
        add == UNION {t[i].add : i \in mine}
        rest == Rest(P1, f, rem)
        ls == Lines(P2, f)
        lines == Range2(Subjects(rest)) \cup Range2(Subjects(ls)) \cup add
        some == \E i \in mine : t[i].some
        free(n) == SelectSeq(n, LAMBDA x : x \notin add)
    IN /\ CodeOf(P1, f) = CodeOf(P2, f)
       /\ \A k \in {"inc", "fwd"} : \A x \in lines :
            LET old == OfName(rest, k, x)
                new == OfName(ls, k, x)
                more == IF x \in add /\ \A i \in 1..Len(ls) : ls[i].tx = x => ls[i].k = k THEN 1 ELSE 0
                texts == {old[i].tx : i \in 1..Len(old)} \cup (IF more = 1 THEN {x} ELSE {})
            IN /\ Len(new) <= Len(old) + more /\ (Len(old) + more > 0 => new # << >>)
               /\ \A i \in 1..Len(new) : new[i].tx \in texts
               \* marks are not lost
               /\ \A i \in 1..Len(old) : old[i].m # "" => \E j \in 1..Len(new) : new[j].m = old[i].m
       /\ ~some => Texts(Lines(P1, f)) = Texts(Lines(P2, f))
       /\ Scen.order => \A k \in 1..4 : free(Alike(P1, f, ls, k)) = free(Alike(P1, f, rest, k))

\* Every include and every forward declaration comes before the code that
\* needs it: that is, the program can be read to its end.
StepLaws(P2) ==
  IF sid[2] = 1 THEN {}
  ELSE LET P1 == ProgramOf(<<sid[1], sid[2] - 1>>)
       IN (IF Followed(P1, P2, todo) THEN {} ELSE {"the advice is not what was done"})
          \cup (IF w.bad THEN {"the program does not compile any more"} ELSE {})

LastRound == sid[2] = Len(Scen.progs)

Result(P, o, laws) ==
  LET general == Law(P, o)
      line(r, x) == [k |-> x.k, n |-> x.n, l |-> x.l, alt |-> IF x.k = "fwd" THEN AltOf(P, x) ELSE 0, pres |-> x.pres,
                     des |-> x.des, why |-> IF x.k = "inc" /\ x.des THEN SetToSeq(WhyOf(P, r, x.n)) ELSE << >>]
  IN
  [id |-> sid[1], round |-> sid[2], bad |-> FALSE, diags |-> o.w.diags, mapdiags |-> o.w.maps.diags, status |-> Status(P, o),
   laws |-> SetToSeq({p \in DOMAIN general : ~general[p]}), steps |-> SetToSeq(laws),
   assoc |-> SetToSeq({FirstNameIn(P, o.w, P.main, a) : a \in o.w.assoc}),
   files |-> [i \in 1..Len(o.order) |->
     LET f == o.order[i]
     IN [f |-> f, text |-> FileText(P, o.w, o.adv[f]),
         lines |-> [k \in 1..Len(o.adv[f].lines) |-> line(o.adv[f], o.adv[f].lines[k])]]]]

Proceed ==
  IF LastRound THEN UNCHANGED <<sid, w>> /\ stack' = <<[f |-> 0, l |-> 0]>>
  ELSE /\ sid' = <<sid[1], sid[2] + 1>>
       /\ w' = StartW(ProgramOf(sid'))
       /\ stack' = StartStack(ProgramOf(sid'))

Conclude ==
  /\ Done
  /\ IF w.bad
     THEN /\ PrintT("@@" \o ToJson([id |-> sid[1], round |-> sid[2], bad |-> TRUE, steps |-> SetToSeq(StepLaws(prog))]))
          /\ todo' = << >> /\ broken' = {} /\ UNCHANGED <<sid, w>> /\ stack' = <<[f |-> 0, l |-> 0]>>
     ELSE LET o == Outcome(prog, w)
              t == Todo(prog, o)
              laws == StepLaws(prog) \cup (IF LastRound /\ ~NothingToDo(t) THEN {"there is always something to do"} ELSE {})
              r == Result(prog, o, laws)
          IN /\ PrintT("@@" \o ToJson(r))
             /\ todo' = t /\ broken' = Range2(r.laws)
             /\ Proceed

TNext == (Len(stack) > 0 /\ stack[1].f # 0 /\ Next /\ UNCHANGED <<todo, broken>>) \/ Conclude

LawsOk == broken = {}
=============================================================================
