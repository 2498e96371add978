---------------------------- MODULE ToolClang ----------------------------
(* The clang-style output formatter of iwyu_tool.py: a line-driven machine.
   Lines are records [k |-> kind, f |-> file, t |-> text, c |-> comment,
   a |-> first line, b |-> last line]; diagnostics likewise. *)
EXTENDS Integers, Sequences, TLC, Json

Scenarios == ndJsonDeserialize("in.ndjson")

VARIABLES sid, pos, mode, file, out
vars == <<sid, pos, mode, file, out>>
Ln == Scenarios[sid].lines[pos]
More == pos <= Len(Scenarios[sid].lines)

Init == sid \in 1..Len(Scenarios) /\ pos = 1 /\ mode = "general" /\ file = "" /\ out = <<>>

D(kind, f, line, t, c) == [d |-> kind, f |-> f, line |-> line, t |-> t, c |-> c]
Step(k) == More /\ Ln.k = k /\ pos' = pos + 1 /\ UNCHANGED sid
Keep == UNCHANGED <<mode, file>>

\* "(f has correct #includes/fwd-decls)"
Correct == Step("correct") /\ out' = Append(out, D("correct", Ln.f, 1, "", "")) /\ Keep
ShouldAdd == Step("add_header") /\ mode' = "add" /\ file' = Ln.f /\ UNCHANGED out
ShouldRemove == Step("remove_header") /\ mode' = "remove" /\ file' = Ln.f /\ UNCHANGED out
FullList == Step("list_header") /\ mode' = "list" /\ file' = Ln.f /\ UNCHANGED out
EndMark == Step("end") /\ mode' = "general" /\ file' = "" /\ UNCHANGED out
Blank == Step("blank") /\ UNCHANGED out /\ Keep
\* A line to be added: with or without a reason.
AddLine == /\ Step("add") /\ Keep
           /\ out' = IF mode = "add" THEN Append(out, D("add", file, 1, Ln.t, Ln.c)) ELSE out
RemoveLine == /\ Step("remove") /\ Keep
              /\ out' = IF mode = "remove" THEN Append(out, D("remove", file, Ln.a, Ln.t, "")) ELSE out
ListLine == Step("listed") /\ mode = "list" /\ UNCHANGED out /\ Keep
Other == Step("other") /\ mode = "general" /\ out' = Append(out, D("other", "", 0, Ln.t, "")) /\ Keep

Next == Correct \/ ShouldAdd \/ ShouldRemove \/ FullList \/ EndMark \/ Blank
        \/ AddLine \/ RemoveLine \/ ListLine \/ Other

\* T04: never more diagnostics than lines, and each for the file whose section it is in.
OnePerLine == Len(out) < pos
RECURSIVE OwnerAt(_)
OwnerAt(p) == IF p = 0 THEN ""
  ELSE LET x == Scenarios[sid].lines[p] IN
       IF x.k \in {"add_header", "remove_header", "list_header"} THEN x.f
       ELSE IF x.k = "end" THEN "" ELSE OwnerAt(p - 1)
RightFile == (out # <<>> /\ out[Len(out)].d \in {"add", "remove"}) =>
             \E p \in 1..(pos - 1) : OwnerAt(p) = out[Len(out)].f /\ Scenarios[sid].lines[p].t = out[Len(out)].t
Emit == ~More => PrintT("@@" \o ToJson([id |-> sid, out |-> out]))
=============================================================================
