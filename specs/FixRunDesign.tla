--------------------------- MODULE FixRunDesign --------------------------
(* Exhaustive check of FixRun: over every sequence of report lines up to a
   length, the records are what the complete reports in it say, and nothing
   else is.  The complete reports are found here directly, in what was read. *)
EXTENDS FixRun

CONSTANTS MaxLen,      \* chunks read
          Whole,       \* only whole reports, else any parts of reports
          Only, Dry, Named

L(k, f, x, a) == [k |-> k, f |-> f, nm |-> IF k = "item" \/ k = "end" THEN "" ELSE "p", x |-> x, a |-> a, b |-> a]
Report(f, x, a) == <<L("add", f, 0, 0), L("item", 0, x, 0), L("rem", f, 0, 0),
                     L("item", 0, x, a), L("tot", f, 0, 0), L("end", 0, 0, 0)>>
NoAdds(f, a) == <<L("add", f, 0, 0), L("rem", f, 0, 0), L("item", 0, 1, a), L("tot", f, 0, 0), L("end", 0, 0, 0)>>
Mixed(f, a) == <<L("add", f, 0, 0), L("rem", 3 - f, 0, 0), L("item", 0, 1, a), L("tot", f, 0, 0), L("end", 0, 0, 0)>>
Parts(r) == IF Whole THEN {r} ELSE {SubSeq(r, i, j) : i \in 1..Len(r), j \in 1..Len(r)} \ {<<>>}
Chunks == UNION {Parts(r) : r \in {Report(f, x, a) : f \in 1..2, x \in 1..2, a \in 0..2}
                             \cup {NoAdds(f, a) : f \in 1..2, a \in 1..2}
                             \cup {Mixed(f, 1) : f \in 1..2}
                             \cup {<<L("ok", f, 0, 0)>> : f \in 1..2}}
S == [lines |-> <<>>,
      files |-> <<[inc |-> {1, 2}, n |-> 3, st |-> "ok", header |-> FALSE, sorted |-> TRUE, cant |-> {}],
                  [inc |-> {1}, n |-> 3, st |-> "ok", header |-> TRUE, sorted |-> FALSE, cant |-> {}]>>,
      opts |-> [named |-> Named, anynamed |-> Named # {}, only |-> Only, ignore |-> "",
                dry |-> Dry, sort |-> FALSE, safe |-> TRUE]]

VARIABLES log, cur, recs, n
Init == log = <<>> /\ cur = None /\ recs = [f \in 1..2 |-> NoRec] /\ n = 0
RECURSIVE ReadAll(_, _)
ReadAll(st, ls) == IF ls = <<>> THEN st ELSE ReadAll(Read(S, st[1], st[2], Head(ls)), Tail(ls))
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \E c \in Chunks : LET r == ReadAll(<<cur, recs>>, c) IN
             /\ log' = log \o c /\ cur' = r[1] /\ recs' = r[2]

\* i..j of the log is a complete report.
Heads == {"add", "rem", "tot", "ok", "end"}
IsReport(i, j) ==
  /\ log[i].k = "add" /\ log[j].k = "end"
  /\ \E r \in i..j, t \in i..j :
       /\ r < t /\ log[r].k = "rem" /\ log[t].k = "tot" /\ log[r].f = log[i].f /\ log[t].f = log[i].f
       /\ \A q \in i..j : log[q].k \in Heads => q \in {i, r, t, j}
       /\ \A q \in r..t : log[q].k = "item" => log[q].a # 0
RemAt(i, j) == CHOOSE r \in i..j : log[r].k = "rem"
TotAt(i, j) == CHOOSE t \in i..j : log[t].k = "tot"
Adds(i, j) == {log[q].x : q \in {q \in i..RemAt(i, j) : log[q].k = "item"}}
Rems(i, j) == UNION {log[q].a..log[q].b : q \in {q \in RemAt(i, j)..TotAt(i, j) : log[q].k = "item"}}
Pairs(f) == {ij \in (1..Len(log)) \X (1..Len(log)) : ij[1] < ij[2] /\ IsReport(ij[1], ij[2]) /\ log[ij[1]].f = f}
Oks(f) == {i \in 1..Len(log) : log[i].k = "ok" /\ log[i].f = f}

MergeLaw ==
  \A f \in 1..2 :
    IF ~Passes(S, f, "p") THEN ~recs[f].have
    ELSE /\ recs[f].have = (Pairs(f) # {} \/ Oks(f) # {})
         /\ recs[f].adds = UNION {Adds(ij[1], ij[2]) : ij \in Pairs(f)}
         /\ \A k \in 1..2 : (k \in recs[f].rem) =
              (recs[f].have /\ Oks(f) = {} /\ \A ij \in Pairs(f) : k \in Rems(ij[1], ij[2]))
\* Nothing is written unless it may be and there is something to write.
WriteLaw ==
  \A f \in 1..2 : LET o == Fate(S, f, recs[f]) IN
    /\ o.written => ~Dry /\ Passes(S, f, "p") /\ (Named # {} => f \in Named)
    /\ ~o.written => o.left = S.files[f].inc /\ o.adds = {}
    /\ o.left = S.files[f].inc \/ ~S.files[f].header
=============================================================================
