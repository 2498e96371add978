----------------------------- MODULE FixRun ------------------------------
(* One run of the fixer as a whole: reading the analysis reports, merging those
   that are about the same file, selecting the files and writing them.

   Scenario S:
     lines   what is read, each [k, f, nm, x, a, b] with k
               "add" "rem" "tot"   the header of a section, for file f
                                   (spelled nm)
               "end"               the end of a report
               "ok"                the report that file f is correct
               "item"              any other line: in the first section the
                                   addition x; in the second a line range a..b
                                   to remove (a = 0: no line range given); in
                                   the third one of the lines that there are
     files   [inc: lines that are includes, n: number of lines,
              st: "ok" or else it cannot be read,
              header: is it a header, sorted: are its includes in order,
              cant: additions that cannot be written in its encoding]
     opts    [named: files named on the command line, anynamed: were any,
              only, ignore: expressions ("": none), dry, sort, safe]       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HasIn(s, x) == \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x

\* The reports that were read so far: one record per file, if any.
NoRec == [have |-> FALSE, adds |-> {}, rem |-> {}, said |-> {}]
None == [sec |-> "none", f |-> 0, nm |-> "", adds |-> {}, rem |-> {}, said |-> {}, bad |-> FALSE]

Passes(S, f, nm) == /\ S.opts.anynamed => f \in S.opts.named
                    /\ S.opts.only # "" => HasIn(nm, S.opts.only)
                    /\ S.opts.ignore # "" => ~HasIn(nm, S.opts.ignore)

\* Additions of any report, removals of every report.
Merge(r, adds, rem, said) ==
  IF r.have THEN [have |-> TRUE, adds |-> r.adds \cup adds, rem |-> r.rem \cap rem,
                  said |-> r.said \cup said]
            ELSE [have |-> TRUE, adds |-> adds, rem |-> rem, said |-> said]
Take(S, recs, f, nm, adds, rem, said) ==
  IF Passes(S, f, nm) THEN [recs EXCEPT ![f] = Merge(@, adds, rem, said)] ELSE recs

\* Reading one line, in state cur with records recs.
Read(S, cur, recs, l) ==
  CASE l.k = "add" -> <<[None EXCEPT !.sec = "add", !.f = l.f, !.nm = l.nm], recs>>
    [] l.k = "ok" -> <<None, Take(S, recs, l.f, l.nm, {}, {}, {})>>
    [] l.k = "rem" -> <<IF cur.sec = "add" /\ cur.f = l.f THEN [cur EXCEPT !.sec = "rem"] ELSE None, recs>>
    [] l.k = "tot" -> <<IF cur.sec = "rem" /\ cur.f = l.f THEN [cur EXCEPT !.sec = "tot"] ELSE None, recs>>
    [] l.k = "end" -> <<None, IF cur.sec = "tot" /\ ~cur.bad
                              THEN Take(S, recs, cur.f, cur.nm, cur.adds, cur.rem, cur.said)
                              ELSE recs>>
    [] OTHER -> <<CASE cur.sec = "add" -> [cur EXCEPT !.adds = @ \cup {l.x}]
                    [] cur.sec = "rem" -> [cur EXCEPT !.rem = @ \cup (IF l.a = 0 THEN {} ELSE l.a..l.b),
                                                      !.bad = @ \/ l.a = 0]
                    [] cur.sec = "tot" -> [cur EXCEPT !.said = @ \cup (IF l.a = 0 THEN {} ELSE l.a..l.b)]
                    [] OTHER -> cur, recs>>

\* What becomes of file f.
Gone(S, f, r) == IF S.opts.safe /\ S.files[f].header THEN {} ELSE r.rem
\* The lines to remove, and those listed with their numbers, must be includes.
Fits(S, f, r) == r.said \cup r.rem \subseteq S.files[f].inc
Same(S, f) == [left |-> S.files[f].inc, adds |-> {}, written |-> FALSE, sorted |-> S.files[f].sorted]
Fate(S, f, r) ==
  LET file == S.files[f] IN
  IF file.st # "ok" \/ S.opts.dry THEN Same(S, f)
  ELSE IF S.opts.sort
  THEN IF f \in S.opts.named /\ ~file.sorted
       THEN [Same(S, f) EXCEPT !.written = TRUE, !.sorted = TRUE] ELSE Same(S, f)
  ELSE IF ~r.have \/ (r.adds = {} /\ r.rem = {}) \/ ~Fits(S, f, r) \/ r.adds \cap file.cant # {}
  THEN Same(S, f)
  ELSE LET gone == Gone(S, f, r) IN
       [left |-> file.inc \ gone, adds |-> r.adds,
        sorted |-> TRUE,
        written |-> gone # {} \/ r.adds # {} \/ ~file.sorted]
=============================================================================
