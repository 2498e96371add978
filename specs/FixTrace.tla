----------------------------- MODULE FixTrace ---------------------------
(* Judges recorded results of the real fixer: one scenario (document, advice,
   options, tokens of the fixed file) after the other, token by token. *)
EXTENDS FixDoc, Json

Scenarios == ndJsonDeserialize("in.ndjson")

VARIABLES sid, doc, p, m
vars == <<sid, doc, p, m>>

Init == /\ sid \in 1..Len(Scenarios)
        /\ doc = Prep(Scenarios[sid]) /\ p = 1 /\ m = M0
Read == /\ p <= Len(doc.toks)
        /\ m' = Step(doc, m, doc.toks[p])
        /\ p' = p + 1 /\ UNCHANGED <<sid, doc>>
Judge == /\ p = Len(doc.toks) + 1
         /\ PrintT("@@" \o ToJson([id |-> sid, bad |-> Finish(doc, m), settled |-> Settled(doc)]))
         /\ p' = p + 1 /\ UNCHANGED <<sid, doc, m>>
Next == Read \/ Judge
View == <<sid, p>>
=============================================================================
