--------------------------- MODULE ToolSelect ---------------------------
(* From a compilation database to analyser command lines (iwyu_tool.py).

   Phases: "fix"   resolve the file of each entry (directory, dots, symlinks),
           "slice" walk the selection given by the user, path by path,
           "run"   rewrite the command of each selected entry,
           "done".
   Paths are sequences of components below the scratch root. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

Scenarios == ndJsonDeserialize("in.ndjson")

VARIABLES sid, pc, files, todo, picked, runs
vars == <<sid, pc, files, todo, picked, runs>>
Sc == Scenarios[sid]

-----------------------------------------------------------------------------
\* Path resolution.  Links: sequence of [at, to, abs].
LinkAt(p) == SelectSeq(Sc.links, LAMBDA k : k.at = p)

RECURSIVE Resolve(_, _, _)
Resolve(done, rest, fuel) ==
  IF rest = <<>> \/ fuel = 0 THEN done
  ELSE LET c == Head(rest) IN
       IF c = "." \/ c = "" THEN Resolve(done, Tail(rest), fuel)
       ELSE IF c = ".." THEN
         Resolve(IF done = <<>> THEN <<>> ELSE SubSeq(done, 1, Len(done) - 1), Tail(rest), fuel)
       ELSE LET here == Append(done, c)
                lk == LinkAt(here) IN
            IF lk = <<>> THEN Resolve(here, Tail(rest), fuel)
            ELSE Resolve(IF lk[1].abs THEN <<>> ELSE done, lk[1].to \o Tail(rest), fuel - 1)

Real(from, path, abs) == Resolve(<<>>, (IF abs THEN <<>> ELSE from) \o path, 20)

Exists(p) == \E i \in DOMAIN Sc.nodes : Sc.nodes[i] = p
Under(p, top) == Len(top) <= Len(p) /\ SubSeq(p, 1, Len(top)) = top

-----------------------------------------------------------------------------
\* POSIX shell splitting, one character at a time.
\* m: "out" between words, "word", "sq", "dq", "esc" (outside), "desc" (in "")
RECURSIVE Split(_, _, _, _)
Split(cs, m, w, acc) ==
  IF cs = <<>> THEN (IF m = "out" THEN acc ELSE Append(acc, w))
  ELSE LET c == Head(cs)
           r == Tail(cs)
           ws == c \in {" ", "\t", "\n", "\r"} IN
    CASE m = "out" -> IF ws THEN Split(r, "out", "", acc)
                      ELSE IF c = "'" THEN Split(r, "sq", "", acc)
                      ELSE IF c = "\"" THEN Split(r, "dq", "", acc)
                      ELSE IF c = "\\" THEN Split(r, "esc", "", acc)
                      ELSE Split(r, "word", c, acc)
      [] m = "word" -> IF ws THEN Split(r, "out", "", Append(acc, w))
                       ELSE IF c = "'" THEN Split(r, "sq", w, acc)
                       ELSE IF c = "\"" THEN Split(r, "dq", w, acc)
                       ELSE IF c = "\\" THEN Split(r, "esc", w, acc)
                       ELSE Split(r, "word", w \o c, acc)
      [] m = "esc" -> Split(r, "word", w \o c, acc)
      [] m = "sq" -> IF c = "'" THEN Split(r, "word", w, acc) ELSE Split(r, "sq", w \o c, acc)
      [] m = "dq" -> IF c = "\"" THEN Split(r, "word", w, acc)
                     ELSE IF c = "\\" THEN Split(r, "desc", w, acc)
                     ELSE Split(r, "dq", w \o c, acc)
      [] m = "desc" -> Split(r, "dq", w \o (IF c \in {"\"", "\\"} THEN c ELSE "\\" \o c), acc)

Words(e) == IF e.form = "arguments" THEN e.args ELSE Split(e.chars, "out", "", <<>>)

HasSuffix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
ClStyle(c) == HasSuffix(c, "cl.exe") \/ HasSuffix(c, "clang-cl")

Rewrite(e) ==
  LET w0 == Words(e)
      w == IF w0[1] = "ccache" THEN Tail(w0) ELSE w0
  IN (IF ClStyle(w[1]) THEN <<"--driver-mode=cl">> ELSE <<>>) \o Sc.extra \o Tail(w)

-----------------------------------------------------------------------------
Init == /\ sid \in 1..Len(Scenarios)
        /\ pc = "fix" /\ files = <<>> /\ todo = Scenarios[sid].select
        /\ picked = <<>> /\ runs = <<>>

Fix == /\ pc = "fix"
       /\ IF Len(files) < Len(Sc.db)
          THEN LET e == Sc.db[Len(files) + 1] IN
               /\ files' = Append(files, Real(e.dir, e.file, e.abs))
               /\ UNCHANGED <<pc, picked>>
          ELSE /\ pc' = IF Sc.select = <<>> THEN "run" ELSE "slice"
               /\ picked' = IF Sc.select = <<>> THEN [i \in 1..Len(Sc.db) |-> i] ELSE <<>>
               /\ UNCHANGED files
       /\ UNCHANGED <<sid, todo, runs>>

Slice == /\ pc = "slice"
         /\ IF todo = <<>> THEN pc' = "run" /\ UNCHANGED <<todo, picked>>
            ELSE LET top == Real(Sc.cwd, Head(todo).path, Head(todo).abs)
                     hit == SelectSeq([i \in 1..Len(files) |-> i], LAMBDA i : Under(files[i], top))
                 IN /\ todo' = Tail(todo)
                    /\ picked' = IF Exists(top) THEN picked \o hit ELSE picked
                    /\ UNCHANGED pc
         /\ UNCHANGED <<sid, files, runs>>

Run == /\ pc = "run"
       /\ IF picked = <<>> THEN pc' = "done" /\ UNCHANGED <<picked, runs>>
          ELSE /\ runs' = Append(runs, [entry |-> Head(picked),
                                        argv |-> Rewrite(Sc.db[Head(picked)]),
                                        cwd |-> Sc.db[Head(picked)].dir])
               /\ picked' = Tail(picked) /\ UNCHANGED pc
       /\ UNCHANGED <<sid, files, todo>>

Next == Fix \/ Slice \/ Run

\* The property, said over the final state only.
Selected(i) == \E k \in DOMAIN Sc.select :
                 LET top == Real(Sc.cwd, Sc.select[k].path, Sc.select[k].abs) IN
                 Exists(top) /\ Under(files[i], top)
Exact == pc = "done" =>
  \A i \in 1..Len(Sc.db) :
    (\E r \in DOMAIN runs : runs[r].entry = i) <=> (Sc.select = <<>> \/ Selected(i))
OwnFlags == \A r \in DOMAIN runs :
  LET e == Sc.db[runs[r].entry] a == runs[r].argv IN
  /\ \E k \in {0, 1} : SubSeq(a, k + 1, k + Len(Sc.extra)) = Sc.extra
  /\ e.form = "arguments" => IsSuffix(Tail(Tail(e.args)), a)
Emit == pc = "done" => PrintT("@@" \o ToJson([id |-> sid, runs |-> runs]))
=============================================================================
