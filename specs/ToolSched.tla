---------------------------- MODULE ToolSched ----------------------------
(* The driver script (iwyu_tool.py) as a scheduler of analyses.

   One action per step of the code: the sweep that collects ended analyses
   (Collect), the reading of the load average (ReadLoad), the start of one
   analysis (Spawn), and the environment's step (End: an analysis ends).
   Loads and limits are counted in quarters, so that the arithmetic is exact. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN, MaxJobs, Codes, Loads, Limits

\* Values for the configurations (negative numbers cannot stand in them).
CodesSmall == {0, 2, -11}
CodesFull == {0, 1, 2, 3, 77, 255, -1, -6, -9, -11, -15}

VARIABLES
  n,        \* number of commands
  jobs,     \* the -j value (>= 1)
  limit,    \* the -l value in quarters, 0 = none
  code,     \* code[i]: exit code of command i, negative = killed by signal
  pc,       \* "collect" | "load" | "start" : where the loop is
  next,     \* first command not started yet
  pend,     \* started and not collected
  ended,    \* subset of pend that has ended
  done,     \* collected (output printed)
  printed,  \* sequence of commands in the order their blocks were printed
  budget,   \* how many starts are left in this round
  hi,       \* history: largest number of analyses alive at once
  worst     \* exit code so far

vars == <<n, jobs, limit, code, pc, next, pend, ended, done, printed, budget, hi, worst>>
cfgv == <<n, jobs, limit, code>>

Worse(w, c) == IF c < 0 THEN (IF c < w THEN c ELSE w)
               ELSE IF w < 0 THEN w
               ELSE IF c > w THEN c ELSE w

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* What the exit code ought to be, said without any order: the property.
WorstOf(S) == LET neg == {x \in S : x < 0} IN
              IF neg # {} THEN MinOf(neg) ELSE MaxOf(S \cup {0})

InitWith(nn, jj, ll, cc) ==
  /\ n = nn /\ jobs = jj /\ limit = ll /\ code = cc
  /\ pc = "collect" /\ next = 1 /\ pend = {} /\ ended = {} /\ done = {}
  /\ printed = <<>> /\ budget = 0 /\ hi = 0 /\ worst = 0

Init == \E nn \in 0..MaxN, jj \in 1..MaxJobs, ll \in Limits :
        \E cc \in [1..nn -> Codes] : InitWith(nn, jj, ll, cc)

AllDone == next > n /\ pend = {}

\* An analysis ends at any time.
End(i) == /\ i \in pend \ ended
          /\ ended' = ended \cup {i}
          /\ UNCHANGED <<cfgv, pc, next, pend, done, printed, budget, hi, worst>>

\* The sweep over the running analyses: the code polls each once, so any
\* subset of those ended is seen, and they are printed in polling order.
Collect(S) ==
  /\ pc = "collect" /\ ~AllDone
  /\ S \subseteq ended
  /\ (jobs = 1 => S = pend)              \* one job: wait for it
  /\ \E ord \in [1..Cardinality(S) -> S] :
       /\ \A a, b \in DOMAIN ord : a < b => ord[a] < ord[b]
       /\ printed' = printed \o ord
  /\ pend' = pend \ S /\ ended' = ended \ S /\ done' = done \cup S
  /\ worst' = IF S = {} THEN worst ELSE
              LET F[T \in SUBSET S] == IF T = {} THEN worst ELSE
                    LET x == MaxOf(T) IN Worse(F[T \ {x}], code[x])
              IN F[S]
  /\ pc' = "load"
  /\ UNCHANGED <<cfgv, next, budget, hi>>

Headroom(l) == IF l >= limit THEN 0 ELSE (limit - l) \div 4
Room == jobs - Cardinality(pend)

ReadLoad(l) ==
  /\ pc = "load"
  /\ budget' = IF limit = 0 \/ jobs = 1 THEN Room
               ELSE IF Headroom(l) >= Room THEN Room
               ELSE IF Headroom(l) = 0 /\ pend = {} THEN 1
               ELSE Headroom(l)
  /\ pc' = "start"
  /\ UNCHANGED <<cfgv, next, pend, ended, done, printed, hi, worst>>

Spawn ==
  /\ pc = "start" /\ budget > 0 /\ next <= n
  /\ pend' = pend \cup {next} /\ next' = next + 1 /\ budget' = budget - 1
  /\ hi' = IF Cardinality(pend') > hi THEN Cardinality(pend') ELSE hi
  /\ UNCHANGED <<cfgv, pc, ended, done, printed, worst>>

EndRound ==
  /\ pc = "start" /\ (budget <= 0 \/ next > n)
  /\ pc' = "collect"
  /\ UNCHANGED <<cfgv, next, pend, ended, done, printed, budget, hi, worst>>

Step == (\E S \in SUBSET ended : Collect(S)) \/ (\E l \in Loads : ReadLoad(l))
        \/ Spawn \/ EndRound
Finished == AllDone /\ UNCHANGED vars
Next == (\E i \in 1..n : End(i)) \/ Step \/ Finished
\* Fairness: analyses end, the loop goes round, ended analyses are noticed.
Spec == Init /\ [][Next]_vars
        /\ \A i \in 1..MaxN : WF_vars(i <= n /\ End(i))
        /\ WF_vars(Step)
        /\ SF_vars(\E S \in SUBSET ended : S = ended /\ S # {} /\ Collect(S))

-----------------------------------------------------------------------------
\* T01
OnceEach == /\ done \cup pend = 1..(next - 1)
            /\ done \cap pend = {}
            /\ Len(printed) = Cardinality(done)
            /\ {printed[i] : i \in DOMAIN printed} = done
WithinJobs == hi <= jobs /\ Cardinality(pend) <= jobs
SerialOrder == jobs = 1 => \A i \in DOMAIN printed : printed[i] = i
LoadRule == [][ (limit > 0 /\ jobs > 1 /\ Spawn) =>
                   (budget >= 1 /\ next' = next + 1) ]_vars
Progress == <>AllDone
\* T02
ExitIsWorst == worst = WorstOf({code[i] : i \in done})
=============================================================================
