--------------------------- MODULE FixRunTrace ---------------------------
(* Executes the specification FixRun on given scenarios. *)
EXTENDS FixRun, Json

Scenarios == ndJsonDeserialize("in.ndjson")
SetOf(seq) == {seq[i] : i \in DOMAIN seq}
Load(s) == [lines |-> s.lines,
            files |-> [f \in DOMAIN s.files |-> [s.files[f] EXCEPT !.inc = SetOf(@), !.cant = SetOf(@)]],
            opts |-> [s.opts EXCEPT !.named = SetOf(@)]]

VARIABLES sid, p, cur, recs, done
Init == /\ sid \in 1..Len(Scenarios) /\ p = 1 /\ cur = None /\ done = FALSE
        /\ recs = [f \in DOMAIN Scenarios[sid].files |-> NoRec]
Scen == Load(Scenarios[sid])
ReadLine == /\ p <= Len(Scenarios[sid].lines)
            /\ LET r == Read(Scen, cur, recs, Scen.lines[p]) IN cur' = r[1] /\ recs' = r[2]
            /\ p' = p + 1 /\ UNCHANGED <<sid, done>>
Fix == /\ p > Len(Scenarios[sid].lines) /\ ~done
       /\ done' = TRUE /\ UNCHANGED <<sid, p, cur, recs>>
       /\ PrintT("@@" \o ToJson([id |-> sid, files |-> [f \in DOMAIN Scen.files |->
            Fate(Scen, f, recs[f])]]))
Next == ReadLine \/ Fix
=============================================================================
