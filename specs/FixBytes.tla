---------------------------- MODULE FixBytes -----------------------------
(* How the fixer represents text: line endings, byte-order mark, encoding.

   A file is a sequence of lines [k, e]: k = "inc" or "code" or "blank",
   e = "lf", "crlf", "cr" or "none" (the last line may have no ending).
   The result is read back as a sequence of tokens [t, i, e]:
     line i    original line i, byte for byte
     cut i     original include line i without white space at its end
     add i     addition i        blank    an empty line      other   none of these *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Scenarios == ndJsonDeserialize("in.ndjson")

Count(S, e) == Cardinality({i \in DOMAIN S.lines : S.lines[i].e = e})
Dominant(S) == IF Count(S, "crlf") > Count(S, "lf") THEN "crlf" ELSE "lf"
\* The additions can be represented, or else nothing is done.
Can(S) == \A a \in DOMAIN S.adds : S.adds[a] = "ascii" \/ S.enc = "utf8"

VARIABLES sid, p, at, bad, got
vars == <<sid, p, at, bad, got>>
S == Scenarios[sid]
Init == sid \in 1..Len(Scenarios) /\ p = 1 /\ at = 0 /\ bad = {} /\ got = {}

\* Line i ends as it did, unless it is an include, or was the unterminated last
\* line and no longer is the last one.
EndOk(i, e) == \/ e = S.lines[i].e
               \/ S.lines[i].k = "inc" /\ e = Dominant(S)
               \/ S.lines[i].e = "none" /\ p < Len(S.toks) /\ e = Dominant(S)
\* One thing of the result.
Bad(x) == CASE x.t = "line" -> (IF EndOk(x.i, x.e) THEN {} ELSE {"ending"})
                               \cup (IF S.lines[x.i].k = "code" /\ x.i <= at THEN {"order"} ELSE {})
            [] x.t = "cut" -> IF S.lines[x.i].k = "inc" /\ x.e = Dominant(S) THEN {} ELSE {"ending"}
            [] x.t = "add" -> IF x.e = Dominant(S) THEN {} ELSE {"ending"}
            [] x.t = "blank" -> {}
            [] OTHER -> {"text"}
Read == /\ p <= Len(S.toks)
        /\ LET x == S.toks[p] IN
             /\ bad' = bad \cup Bad(x)
             /\ at' = IF x.t = "line" /\ S.lines[x.i].k = "code" THEN x.i ELSE at
             /\ got' = got \cup {IF x.t = "add" THEN <<"a", x.i>> ELSE <<"l", IF x.t \in {"line", "cut"} THEN x.i ELSE 0>>}
        /\ p' = p + 1 /\ UNCHANGED sid
\* New blank lines have the dominant ending, old ones may end as they did.
Blanks(e) == Cardinality({q \in DOMAIN S.toks : S.toks[q].t = "blank" /\ S.toks[q].e = e})
OldBlanks(e) == Cardinality({i \in DOMAIN S.lines : S.lines[i].k = "blank" /\ S.lines[i].e = e})
BlanksOk == \A e \in {"lf", "crlf", "cr", "none"} : e = Dominant(S) \/ Blanks(e) <= OldBlanks(e)
End == /\ p = Len(S.toks) + 1 /\ p' = p + 1 /\ UNCHANGED <<sid, at, got>>
       /\ bad' = bad
            \cup (IF BlanksOk THEN {} ELSE {"blank"})
            \cup (IF S.bom = S.bom2 THEN {} ELSE {"bom"})
            \cup (IF \A i \in DOMAIN S.lines : S.lines[i].k = "code" \/ (S.lines[i].k = "inc" /\ ~Can(S)) => <<"l", i>> \in got THEN {} ELSE {"lost"})
            \cup (IF Can(S) = (\A a \in DOMAIN S.adds : <<"a", a>> \in got) \/ S.adds = <<>> THEN {} ELSE {"added"})
       /\ PrintT("@@" \o ToJson([id |-> sid, bad |-> bad']))
Next == Read \/ End
View == <<sid, p>>
=============================================================================
