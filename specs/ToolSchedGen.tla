-------------------------- MODULE ToolSchedGen --------------------------
(* Simulated behaviours of ToolSched, emitted as schedules for the real
   script: the order in which the analyses end and the loads it is shown. *)
EXTENDS ToolSched, Json

VARIABLES hist, emitted

GenInit == /\ \E nn \in 1..MaxN, jj \in 1..MaxJobs, ll \in Limits :
                InitWith(nn, jj, ll, [i \in 1..nn |-> RandomElement(Codes)])
           /\ hist = <<>> /\ emitted = FALSE
GEnd(i) == End(i) /\ hist' = Append(hist, [e |-> "end", v |-> i]) /\ UNCHANGED emitted
GCollect == /\ (ended # {} \/ pend = {}) /\ Collect(ended) /\ UNCHANGED <<hist, emitted>>
GLoad(l) == ReadLoad(l) /\ hist' = Append(hist, [e |-> "load", v |-> l]) /\ UNCHANGED emitted
GSpawn == Spawn /\ hist' = hist /\ UNCHANGED emitted
GRound == EndRound /\ hist' = hist /\ UNCHANGED emitted
Fin == /\ AllDone /\ ~emitted /\ emitted' = TRUE /\ UNCHANGED <<vars, hist>>
       /\ PrintT("@@" \o ToJson([n |-> n, jobs |-> jobs, limit |-> limit,
                                 code |-> code, hist |-> hist, worst |-> worst]))
GenNext == (\E i \in 1..n : GEnd(i)) \/ GCollect \/ (\E l \in Loads : GLoad(l))
           \/ GSpawn \/ GRound \/ Fin
=============================================================================
