----------------------------- MODULE FixDoc -----------------------------
(* What editing a file with include fixes may do to it.

   A document is a sequence of lines, each with a kind:
     inc   an include                    fwd   (part of) a forward declaration
     com   a comment line                blank
     code  anything else                 once  #pragma once
     gdef  the #define of a guard        push/pop  pragma push, pop
     if / else / endif                   conditionals
     ns / cont / nsend                   namespaces (d = number of braces)
     mark  a pragma of the analyser on a line of its own
     begin / end                         such pragmas around a range of lines
   Includes and forward declarations are the units that may be removed and
   moved.  Advice: the removed units (rm) and a sequence of additions.

   The result of an edit is a sequence of tokens:
     line i     the original line i, unchanged
     unit us    one of the original includes or declarations us, which look
                alike (txt: how it is spelled)
     add a      addition a, below generated namespaces or none
     blank, other (a line that is none of these)

   The module is a monitor: Step consumes one token and notes in m.bad which
   of the guarantees the result breaks:
     code     a line that is neither include nor declaration lost, moved, doubled
     alter    text that was not there and was not asked for
     comment  a comment that went astray
     shell    part of a block dropped, or a block that is not empty
     kept     an include or declaration lost     removed  one not removed
     added    an addition missing or doubled     dup      a repetition left
     zone     a unit that crossed a boundary     place    an addition misplaced
     order    units of one block out of order                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Min1(S, n) == IF S = {} THEN n ELSE CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
\* Structure of a document.  D is the scenario: D.lines, D.units, D.adds, ...
N(D) == Len(D.lines)
K(D, i) == D.lines[i].k

\* The comment that runs from the first line of the file stays where it is.
LeadCom(D) == {i \in 1..N(D) : \A j \in 1..i : K(D, j) \in {"com", "mark"}}
\* Other comment lines directly above a unit belong to it.
RECURSIVE RunUp(_, _)
RunUp(D, i) == IF i > 1 /\ K(D, i - 1) = "com" THEN RunUp(D, i - 1) ELSE i
AttFirst(D, u) == LET f == D.units[u].first r == RunUp(D, f) IN IF r <= 1 THEN f ELSE r
Attached(D, u) == AttFirst(D, u)..(D.units[u].first - 1)
UnitLines(D, u) == D.units[u].first..D.units[u].last

Removed(D, u) == D.units[u].rm /\ ~D.safe
\* Pinned includes hold their place, and so does everything else.
Pinned(D, u) == D.units[u].pin
Loose(D, i) == \E u \in DOMAIN D.units :
                 /\ i \in UnitLines(D, u) \cup Attached(D, u)
                 /\ (~Pinned(D, u) \/ Removed(D, u))
Fixed(D) == {i \in 1..N(D) : K(D, i) # "blank" /\ ~Loose(D, i)}

\* Nesting depth of conditionals and namespaces after line i.
\* (computed once per document, see Prep)
IfDelta(D, i) == IF K(D, i) = "if" THEN 1 ELSE IF K(D, i) = "endif" THEN -1 ELSE 0
NsDelta(D, i) == CASE K(D, i) = "ns" -> D.lines[i].d [] K(D, i) = "cont" -> 1
                   [] K(D, i) = "nsend" -> -D.lines[i].d [] OTHER -> 0
RECURSIVE IfSum(_, _), NsSum(_, _)
IfSum(D, acc) == IF Len(acc) = N(D) THEN acc
  ELSE LET i == Len(acc) + 1 IN
       IfSum(D, Append(acc, (IF i = 1 THEN 0 ELSE acc[i - 1]) + IfDelta(D, i)))
NsSum(D, acc) == IF Len(acc) = N(D) THEN acc
  ELSE LET i == Len(acc) + 1 IN
       NsSum(D, Append(acc, (IF i = 1 THEN 0 ELSE acc[i - 1]) + NsDelta(D, i)))
IfDepth(D, i) == IF i = 0 THEN 0 ELSE D.ifd[i]
NsDepth(D, i) == IF i = 0 THEN 0 ELSE D.nsd[i]

\* A conditional without alternatives around the whole file (a guard).
Quiet == {"com", "mark", "begin", "end", "blank", "once"}
FileWide(D) ==
  {i \in 1..N(D) :
     /\ K(D, i) = "if" /\ \A j \in 1..(i - 1) : K(D, j) \in Quiet
     /\ \E e \in i..N(D) :
          /\ K(D, e) = "endif" /\ IfDepth(D, e) = 0
          /\ \A j \in i..(e - 1) : IfDepth(D, j) > 0 /\ ~(K(D, j) = "else" /\ IfDepth(D, j) = 1)
          /\ \A j \in (e + 1)..N(D) : K(D, j) \in Quiet \ {"once"}}
\* Where unconditional text may go: after the lead comment and the guard.
CondDepth(D, i) == IfDepth(D, i) - (IF \E g \in D.wide \cap D.surv : g <= i THEN 1 ELSE 0)
\* A conditional around the whole file has ended: what follows is outside of it.
\* (#pragma once guards whatever follows.)
Once(D, i) == \E j \in 1..(i - 1) : K(D, j) = "once"
Lead(D) == (LeadCom(D) \cup {i \in D.wide : ~Once(D, i)}
            \cup {i \in 2..N(D) : (i - 1) \in D.wide /\ ~Once(D, i) /\ K(D, i) = "gdef"}
                \cup {i \in 1..N(D) : K(D, i) = "once"
                        /\ \A j \in 1..(i - 1) : K(D, j) \in Quiet})

\* Blocks: from an opening line to the line that closes it exactly.
BlockEnd(D, o) ==
  IF K(D, o) = "if"
  THEN {e \in (o + 1)..N(D) : K(D, e) = "endif" /\ IfDepth(D, e) = IfDepth(D, o) - 1
                              /\ \A j \in o..(e - 1) : IfDepth(D, j) >= IfDepth(D, o)}
  ELSE LET before == NsDepth(D, o - 1) IN
       {e \in (o + 1)..N(D) : K(D, e) = "nsend" /\ NsDepth(D, e) = before
                              /\ \A j \in (o + 1)..(e - 1) :
                                   K(D, j) = "nsend" => NsDepth(D, j) > before}
Hollow(D, i) == \/ K(D, i) \in {"blank", "com", "if", "else", "endif", "ns", "cont", "nsend"}
                \/ \E u \in DOMAIN D.units : Removed(D, u) /\ i \in UnitLines(D, u)
Shell(D, o) == K(D, o) \in {"if", "ns"} /\ BlockEnd(D, o) # {}
               /\ \A e \in BlockEnd(D, o) : \A j \in o..e : Hollow(D, j)
ShellCore(D, o) == o..(CHOOSE e \in BlockEnd(D, o) : TRUE)
Shells(D) == {o \in 1..N(D) : Shell(D, o)}

-----------------------------------------------------------------------------
\* Kinds of units, for the documented order of includes.
HasSuffix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Cut(s, x) == SubSeq(s, 1, Len(s) - Len(x))
RECURSIVE CutFirstOf(_, _)
CutFirstOf(s, xs) == IF xs = <<>> THEN s
                     ELSE IF HasSuffix(s, Head(xs)) THEN Cut(s, Head(xs))
                     ELSE CutFirstOf(s, Tail(xs))
RECURSIVE CutExt(_, _)
CutExt(s, i) == IF i <= 1 THEN s
                ELSE IF SubSeq(s, i, i) = "." THEN SubSeq(s, 1, i - 1) ELSE CutExt(s, i - 1)
IncBase(b) == CutFirstOf(b, <<"-inl.h", "-INL.H", ".h", ".H", ".hpp", ".HPP", ".Hpp">>)
FileBase(b) == CutFirstOf(CutExt(b, Len(b)), <<"_unittest", "_regtest", "_test">>)
Internal(d) == [i \in DOMAIN d |-> IF i > 1 /\ d[i] = "public" THEN "internal" ELSE d[i]]

SameStem(D, x) == IncBase(x.base) = FileBase(D.file.base)
SameDir(D, x) == D.file.dir = x.dir \/ D.file.dir = Internal(x.dir)
Own(D, x) == /\ ~x.angle
             /\ x.assoc \/ (SameStem(D, x) /\ (SameDir(D, x) \/ x.isfirst))
\* Sorting is settled after one round, unless the place of an include decides
\* what it is (own header) or what is above it (the comment of the file), or the
\* first round removes empty blocks that divide the document.
Settled(D) == Shells(D) = {} /\ \A u \in DOMAIN D.units :
  LET x == D.units[u] IN
  /\ x.k = "inc" /\ SameStem(D, x) => SameDir(D, x) \/ x.assoc
  /\ RunUp(D, x.first) > 1 \/ x.first = 1
Dotted(x) == \E i \in 1..Len(x.base) : SubSeq(x.base, i, i) = "."
             
SameProject(D, x) == CASE D.project = "" -> FALSE
                       [] D.project = "<tld>" -> /\ x.dir # <<>> /\ D.file.dir # <<>>
                                                 /\ x.dir[1] = D.file.dir[1]
                       [] OTHER -> x.dir # <<>> /\ x.dir[1] = D.project
\* 1 own, 2 C system, 3 C++ system, 4 other, 5 project, 6 forward declaration
Kind(D, x) == CASE x.k = "fwd" -> 6
                [] Own(D, x) -> 1
                [] x.angle /\ (Dotted(x) \/ \E c \in Range(x.dir) : \E i \in 1..Len(c) : SubSeq(c, i, i) = ".") -> 2
                [] x.angle -> 3
                [] SameProject(D, x) -> 5
                [] OTHER -> 4
Place(D, x) == IF D.quoted THEN <<1, 4, 5, 2, 3, 6>>[Kind(D, x)] ELSE Kind(D, x)

-----------------------------------------------------------------------------
\* The monitor.
M0 == [anchor |-> 0, k |-> 0, o |-> 0, r |-> -1, new |-> TRUE, pend |-> <<>>, left |-> {},
       seen |-> {}, done |-> {}, bad |-> {}]

\* The fixed lines that the result still has.
Survive(D) == ({D.toks[p].i : p \in {q \in DOMAIN D.toks : D.toks[q].t = "line"}}
               \cup UNION {UnitLines(D, D.toks[p].us[1]) : p \in {q \in DOMAIN D.toks : D.toks[q].t = "unit"}})
              \cap D.fixed
Home(D, i) == Max0({j \in D.surv : j < i})

\* Adds to a scenario what is derived from it.
Prep(D0) ==
  LET D1 == [ifd |-> IfSum(D0, <<>>), nsd |-> NsSum(D0, <<>>)] @@ D0
      D2 == [wide |-> FileWide(D1), fixed |-> Fixed(D1)] @@ D1
      D3 == [surv |-> Survive(D2)] @@ D2
  IN [lead |-> Max0(Lead(D3) \cap D3.surv)] @@ D3

\* Is the place below line i within a marked range?
Ranged(D, i) == \E b \in 1..i, e \in (i + 1)..N(D) :
                  /\ K(D, b) = "begin" /\ K(D, e) = "end"
                  /\ \A j \in (b + 1)..(e - 1) : K(D, j) \notin {"begin", "end"}

Note(m, c, what) == IF c THEN m ELSE [m EXCEPT !.bad = @ \cup {what}]
NoPend(m) == [Note(m, m.pend = <<>>, "comment") EXCEPT !.pend = <<>>]

OnLine(D, m, i) ==
  IF i \notin D.fixed
  THEN \* part of the comment of a unit
       IF \E u \in DOMAIN D.units : i \in Attached(D, u)
       THEN [m EXCEPT !.pend = Append(@, i)]
       ELSE Note(m, FALSE, "alter")
  ELSE [Note(NoPend(m), i > m.anchor, "code")
        EXCEPT !.anchor = i, !.k = 0, !.o = 0, !.r = -1, !.new = TRUE]

\* The order within one block: by kind; then by name, or as it was before.
InOrder(D, m, place, orig, rank) ==
  LET m1 == Note(m, D.idle \/ place >= m.k, "order")
      same == place = m.k
      m2 == IF D.idle THEN m1
            ELSE IF D.reorder
            THEN Note(m1, same /\ place # 6 => rank >= m.r, "order")
            ELSE Note(m1, same /\ orig > 0 => orig > m.o, "order")
  IN [m2 EXCEPT !.k = place, !.r = rank,
                !.o = IF orig > 0 THEN orig ELSE IF same THEN @ ELSE 0]

AfterPinned(D, i) == \E u \in DOMAIN D.units : Pinned(D, u) /\ D.units[u].last = i
\* What is added next to a pinned include is not in the block that follows.
InBlock(D, m, place, orig, rank) ==
  LET m1 == InOrder(D, m, place, orig, rank) IN
  IF "order" \in m1.bad \ m.bad /\ m.new /\ AfterPinned(D, m.anchor)
  THEN [InOrder(D, [m EXCEPT !.k = 0, !.o = 0, !.r = -1], place, orig, rank) EXCEPT !.new = FALSE]
  ELSE m1
Att(D, u) == [j \in 1..(D.units[u].first - AttFirst(D, u)) |-> AttFirst(D, u) + j - 1]
\* Which of several alike units this is: one that fits, if any does.
Which(D, m, us) ==
  LET fits(u) == <<u \notin m.seen, m.anchor = Home(D, D.units[u].first), m.pend = Att(D, u),
                   ~Removed(D, u)>>
      good(n) == {u \in Range(us) : LET f == fits(u) IN \A j \in 1..n : f[j]}
      best == Max0({n \in 0..4 : good(n) # {}})
  IN Min1(good(best), 0)
OnUnit(D, m, us, txt) ==
  LET u == Which(D, m, us)
      x == D.units[u]
      att == Att(D, u)
      m1 == Note(m, m.pend = att, "comment")
      m2 == Note(m1, ~Removed(D, u), "removed")
      m3 == Note(m2, u \notin m.seen, "kept")
      m4 == Note(m3, m.anchor = Home(D, x.first), "zone")
      m5 == Note(m4, txt = "same" \/ (txt = "iwyu" /\ D.comments /\ ~x.mark), "alter")
      m6 == InBlock(D, m5, Place(D, x), u, x.rank)
  IN [m6 EXCEPT !.pend = <<>>, !.new = FALSE, !.seen = @ \cup {u}]

\* Names of the namespaces that are open after line i.
RECURSIVE NsPath(_, _)
NsPath(D, i) ==
  IF i = 0 THEN <<>>
  ELSE LET p == NsPath(D, i - 1) IN
       CASE K(D, i) \in {"ns", "cont"} -> p \o D.lines[i].nm
         [] K(D, i) = "nsend" -> SubSeq(p, 1, IF Len(p) >= D.lines[i].d THEN Len(p) - D.lines[i].d ELSE 0)
         [] OTHER -> p

Mid(D, i) == i > 0 /\ D.lines[i].mid

BeforePinned(D, i) ==
  LET next == Min1({j \in D.surv : j > i}, 0) IN
  \E u \in DOMAIN D.units : Pinned(D, u) /\ next \in UnitLines(D, u) \cup Attached(D, u)
OnAdd(D, m, a, gen, txt) ==
  LET x == D.adds[a]
      at == m.anchor
      m1 == Note(Note(NoPend(m), a \notin m.done, "added"), ~Ranged(D, at), "place")
      m2 == IF x.k = "inc"
            THEN Note(m1, /\ CondDepth(D, at) = 0 /\ NsDepth(D, at) = 0
                          /\ at >= D.lead /\ ~Mid(D, at), "place")
            ELSE Note(m1, /\ CondDepth(D, at) = 0 /\ ~Mid(D, at)
                          /\ NsPath(D, at) \o gen = x.path, "place")
      m3 == Note(m2, txt = "same" \/ (txt = "iwyu" /\ D.comments), "alter")
      m4 == IF NsDepth(D, at) > 0 THEN m3   \* somewhere among the declarations there
            ELSE IF BeforePinned(D, at) /\ Place(D, x) < m.k
            THEN \* next to a pinned include: not one block with what is above
                 [m3 EXCEPT !.k = Place(D, x), !.o = 0, !.r = x.rank]
            ELSE InBlock(D, m3, Place(D, x), 0, x.rank)
  IN [m4 EXCEPT !.done = @ \cup {a}]

Step(D, m, tok) ==
  CASE tok.t = "line" -> OnLine(D, m, tok.i)
    [] tok.t = "unit" -> IF Pinned(D, tok.us[1]) /\ ~Removed(D, tok.us[1])
                         THEN \* holds its place
                              [OnLine(D, Note(m, tok.us[1] \notin m.seen, "kept"), D.units[tok.us[1]].last)
                               EXCEPT !.seen = @ \cup {tok.us[1]}]
                         ELSE OnUnit(D, m, tok.us, tok.txt)
    [] tok.t = "add" -> OnAdd(D, m, tok.a, tok.gen, tok.txt)
    [] tok.t = "blank" -> NoPend(m)
    [] OTHER -> Note(m, FALSE, "alter")

\* What must hold at the end.
Dropped(D) == D.fixed \ D.surv
WholeShells(D) ==
  \A i \in Dropped(D) :
    \E o \in Shells(D) :
       /\ i \in ShellCore(D, o) \cup RunUp(D, o)..o
       /\ ShellCore(D, o) \cap D.surv = {}
\* One of two equal lines may go, if neither is in a conditional or namespace ...
Repeated(D, u) ==
  ~D.safe /\ \E v \in DOMAIN D.units :
    /\ v < u /\ D.units[v].cls = D.units[u].cls /\ ~Removed(D, v)
    /\ \A w \in {u, v} : CondDepth(D, D.units[w].first) = 0 /\ NsDepth(D, D.units[w].first) = 0
\* ... and must go, if they are in the same block and bare.
MustGo(D, u) ==
  Repeated(D, u) /\ \E v \in DOMAIN D.units :
    /\ v < u /\ D.units[v].cls = D.units[u].cls /\ ~Removed(D, v)
    /\ \A w \in {u, v} : /\ Attached(D, w) = {} /\ ~Pinned(D, w)
                         /\ \A j \in 1..D.units[w].first : K(D, j) \notin {"ns", "cont"}
                         /\ ~Ranged(D, D.units[w].first)
    /\ Home(D, D.units[v].first) = Home(D, D.units[u].first)
Finish(D, m0) ==
  LET m == NoPend(m0)
      units == DOMAIN D.units
      lost == {u \in units : u \notin m.seen /\ ~Removed(D, u) /\ ~Repeated(D, u)}
  IN m.bad
     \cup (IF lost = {} THEN {} ELSE {"kept"})
     \cup (IF ~D.idle /\ \E u \in m.seen : MustGo(D, u) THEN {"dup"} ELSE {})
     \cup (IF m.done = DOMAIN D.adds THEN {} ELSE {"added"})
     \cup (IF WholeShells(D) THEN {} ELSE {"shell"})
     \cup (IF \E i \in Dropped(D) : K(D, i) \in {"code", "mark", "begin", "end"} THEN {"code"} ELSE {})
=============================================================================