--------------------------- MODULE ToolTrace ----------------------------
(* Acceptance of executions recorded from the real script.

   A trace is one JSON object: the configuration and the recorded events
     spawn i   (parent, just before the child is created)
     end i     (child, just before it exits)
     load q    (parent, load average it was shown, in quarters)
     block i   (the block of output i, in the order found in the output)
     exit c    (exit status of the script)
   Collecting ended analyses is not observable; the most permissive choice
   (an ended analysis is collected at once) is made, so a trace is rejected
   only if no schedule of ToolSched explains it. *)
EXTENDS ToolSched, Json

Traces == ndJsonDeserialize("in.ndjson")

VARIABLES t, l, ok
tv == <<vars, t, l, ok>>

Tr == Traces[t]
Ev == Tr.ev[l]

TInit == /\ t \in 1..Len(Traces)
         /\ l = 1 /\ ok = TRUE
         /\ InitWith(Traces[t].n, Traces[t].jobs, Traces[t].limit, Traces[t].code)

\* A trace is judged for the scheduling property or for the output property.
Sched == Tr.chk = "sched"

Alive == pend \ ended

TSpawn == /\ Ev.e = "spawn"
          /\ Ev.v \in 1..n /\ Ev.v \notin done \cup pend      \* exactly once
          /\ Sched => /\ Cardinality(Alive) < jobs               \* job limit
                      /\ (jobs = 1 => Ev.v = next)               \* serial order
                      /\ (limit > 0 => (budget > 0 \/ Alive = {})) \* load limit
          /\ pend' = Alive \cup {Ev.v} /\ done' = done \cup ended /\ ended' = {}
          /\ budget' = IF budget > 0 THEN budget - 1 ELSE 0
          /\ next' = next + 1
          /\ UNCHANGED <<n, jobs, limit, code, pc, printed, hi, worst>>
TEnd == /\ Ev.e = "end" /\ Ev.v \in Alive
        /\ ended' = ended \cup {Ev.v}
        /\ UNCHANGED <<n, jobs, limit, code, pc, next, pend, done, printed, budget, hi, worst>>
TLoad == /\ Ev.e = "load"
         /\ budget' = IF limit = 0 THEN 0 ELSE Headroom(Ev.v)
         /\ UNCHANGED <<n, jobs, limit, code, pc, next, pend, ended, done, printed, hi, worst>>
TBlock == /\ Ev.e = "block" /\ Ev.v \in ended \cup done
          /\ \A i \in DOMAIN printed : printed[i] # Ev.v
          /\ (jobs = 1 => Ev.v = Len(printed) + 1)
          /\ printed' = Append(printed, Ev.v)
          /\ worst' = Worse(worst, code[Ev.v])
          /\ UNCHANGED <<n, jobs, limit, code, pc, next, pend, ended, done, budget, hi>>
TExit == /\ Ev.e = "exit"
         /\ Alive = {} /\ next = n + 1                           \* all ended
         /\ ~Sched => /\ Len(printed) = n                        \* all there
                      /\ worst = WorstOf({code[i] : i \in 1..n})
                      /\ Ev.v = worst % 256
         /\ UNCHANGED vars

TStep == /\ l <= Len(Tr.ev)
         /\ TSpawn \/ TEnd \/ TLoad \/ TBlock \/ TExit
         /\ l' = l + 1 /\ UNCHANGED <<t, ok>>
TDone == /\ l = Len(Tr.ev) + 1 /\ Tr.ev[l - 1].e = "exit" /\ ok
         /\ PrintT("@@" \o ToJson([id |-> t, accepted |-> TRUE]))
         /\ ok' = FALSE /\ UNCHANGED <<vars, t, l>>
\* Stuck: the first event the specification does not allow.
TReject == /\ ok /\ l <= Len(Tr.ev)
           /\ ~ENABLED (TSpawn \/ TEnd \/ TLoad \/ TBlock \/ TExit)
           /\ PrintT("@@" \o ToJson([id |-> t, accepted |-> FALSE, at |-> l, event |-> Ev,
                 alive |-> Alive, budget |-> budget, printed |-> printed]))
           /\ ok' = FALSE /\ UNCHANGED <<vars, t, l>>
TNext == ok /\ (TStep \/ TDone \/ TReject)
=============================================================================
