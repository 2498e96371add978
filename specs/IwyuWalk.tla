------------------------------ MODULE IwyuWalk ------------------------------
(* The analyser reading a program, line by line.                            *)
(*                                                                          *)
(* A program P is a record with                                             *)
(*   files : sequence of files [name, q, sys, lines], q is the name by      *)
(*           which it is included, with its quotes                          *)
(*   main  : number of the main file (the last ones may be prefix headers)  *)
(*   pfx   : sequence of files included by the command line first           *)
(*   names, rank : all header names, and the alphabetical order of texts    *)
(*   globs, keeps : patterns of files to report on and of files to keep     *)
(*   docs, mapargs : mapping files (see IwyuMaps), and which are asked for  *)
(*   opts  : [nofwd, transitive, prefix, nobuiltin]                         *)
(* A line has k (kind) and, depending on it, t (file), n (name as written), *)
(* e (entity), m (mark at its end), a (argument), ok, x (list).             *)
EXTENDS IwyuMacro, Json, TLC

CONSTANT Program(_)

VARIABLES sid,     \* which program is read
          stack,   \* files being read: sequence of [f, l], l = last line read
          w        \* everything learned so far
vars == <<sid, stack, w>>

prog == Program(sid)

Files(P) == 1..Len(P.files)

InitW(P) ==
  LET maps == Maps(P.docs, P.mapargs)
      builtin == ~P.opts.nobuiltin
  IN
  [maps |-> maps, once |-> {}, incl |-> [f \in Files(P) |-> << >>], open |-> {}, ranges |-> {},
   edges |-> (IF builtin THEN BuiltinEdges ELSE << >>) \o maps.edges,
   vis |-> (IF builtin THEN BuiltinVis ELSE {}) \cup Range2(maps.vis), pvis |-> {}, friends |-> {},
   noinc |-> {}, nofwd |-> {}, akeep |-> {}, pend |-> FALSE, assoc |-> {},
   group |-> {}, rep |-> << >>, kept |-> {}, pre |-> [f \in Files(P) |-> << >>],
   ast |-> [f \in Files(P) |-> << >>], decl |-> << >>, macro |-> << >>,
   musers |-> {}, diags |-> << >>, prefix |-> {}, ti |-> 0, entered |-> << >>, seen |-> {}, bad |-> FALSE,
   uses |-> << >>, todo |-> << >>, cond |-> << >>, skipped |-> {},
   canon |-> [f \in Files(P) |-> Canonical(P.files[f].name)],
   base |-> [f \in Files(P) |-> Canonical(Base(P.files[f].name))],
   also |-> {f \in Files(P) : MatchesAny(P.globs, P.files[f].name)},
   keep |-> {f \in Files(P) : MatchesAny(P.keeps, P.files[f].name)},
   nonhdr |-> {n \in Range2(P.names) : ~IsHeaderName(SubSeq(n, 1, Len(n) - 1))}]

Diag(x, f, l, text) == [x EXCEPT !.diags = Append(@, [f |-> f, l |-> l, m |-> text])]

OpenOf(x, kind, f) == {o \in x.open : o.k = kind /\ o.f = f}
IsOpen(x, kind, f) == OpenOf(x, kind, f) # {}

Close(x, kind, f, l) ==
  LET o == CHOOSE o \in x.open : o.k = kind /\ o.f = f
  IN [x EXCEPT !.open = @ \ {o}, !.ranges = @ \cup {[k |-> kind, f |-> f, a |-> o.l, b |-> l]}]

\* ---- a mark --------------------------------------------------------------

Pragma(P, x, f, l, op, L) ==
  IF IsOpen(x, "e", f)
  THEN IF op = "end_exports" THEN Close(x, "e", f, l) ELSE Diag(x, f, l, "Expected end_exports pragma")
  ELSE IF IsOpen(x, "k", f)
  THEN IF op = "end_keep" THEN Close(x, "k", f, l) ELSE Diag(x, f, l, "Expected end_keep pragma")
  ELSE CASE op = "begin_exports" -> [x EXCEPT !.open = @ \cup {[k |-> "e", f |-> f, l |-> l]}]
    [] op = "begin_keep" -> [x EXCEPT !.open = @ \cup {[k |-> "k", f |-> f, l |-> l]}]
    [] op = "end_exports" -> Diag(x, f, l, "end_exports without a begin_exports")
    [] op = "end_keep" -> Diag(x, f, l, "end_keep without a begin_keep")
    [] op = "private_include" ->
         IF L.ok THEN [x EXCEPT !.edges = Append(@, [f |-> Q(P, f), n |-> L.a, p |-> 0]),
                                !.vis = @ \cup {<<Q(P, f), "private">>}]
         ELSE Diag(x, f, l, "Suggested include must be a quoted header")
    [] op = "private" -> [x EXCEPT !.pvis = @ \cup {f}]
    [] op = "no_include" ->
         IF L.ok THEN [x EXCEPT !.noinc = @ \cup {<<f, L.a>>}]
         ELSE Diag(x, f, l, "Inhibited include must be a quoted header")
    [] op = "no_forward_declare" -> [x EXCEPT !.nofwd = @ \cup {<<f, L.a>>}]
    [] op = "friend" -> [x EXCEPT !.friends = @ \cup {<<L.x[i], f>> : i \in 1..Len(L.x)}]
    [] op = "associated" -> IF f = P.main THEN [x EXCEPT !.pend = TRUE] ELSE x
    [] op = "always_keep" -> [x EXCEPT !.akeep = @ \cup {f}]
    [] op \in {"keep", "export"} -> x
    [] OTHER -> Diag(x, f, l, "Unknown or malformed pragma (" \o L.a \o ")")

\* ---- an include ------------------------------------------------------------

Report(P, x, t) == t \in x.also \/ t \in x.group

\* Does t belong to the component of the main file?
OwnHeader(P, x, f, t) ==
  /\ ~P.files[t].sys
  /\ \/ x.canon[t] = x.canon[P.main]
     \/ f = P.main /\ Len(x.incl[P.main]) = 1 /\ x.base[t] = x.base[P.main]

Protect(P, x, f, t, L) ==
  LET use == [k |-> "inc", s |-> "", d |-> t, dl |-> 0, l |-> 0, sg |-> L.n, ign |-> FALSE,
              ti |-> 0, pub |-> << >>]
      y == [x EXCEPT !.pre[f] = Append(@, use)]
      e1 == [f |-> L.n, n |-> Q(P, f), p |-> f]
      e2 == [f |-> Q(P, t), n |-> Q(P, f), p |-> f]
      \* a name that depends on the directory says nothing to others
      relative == StartsWith(L.n, "\"") /\ Normalize(DirOf(P.files[f].path) \o SubSeq(L.n, 2, Len(L.n) - 1)) = P.files[t].path
  IN IF L.m = "keep" \/ IsOpen(x, "k", f) \/ t \in x.keep
     THEN [y EXCEPT !.kept = @ \cup {<<f, t>>}]
     ELSE IF L.m = "export" \/ IsOpen(x, "e", f)
     THEN [y EXCEPT !.edges = @ \o (IF relative THEN <<e2>> ELSE IF Q(P, t) = L.n THEN <<e1>> ELSE <<e1, e2>>)]
     ELSE IF ~IsHeaderName(P.files[t].name) THEN y ELSE x

\* Headers in a directory called internal are private, to all but the
\* directory around it; who includes them provides them.
Internal(P, x, t, edge) ==
  LET q == Q(P, t)
      at == InternalAt(q)
  IN IF at = 0 THEN x
     ELSE [x EXCEPT !.vis = @ \cup {<<q, "private">>},
                    !.friends = @ \cup {<<n, t>> : n \in {n \in Range2(P.names) : StartsWith(n, SubSeq(q, 1, at - 1))}},
                    !.edges = @ \o edge]

AddInclude(P, x, f, l, L) ==
  LET t == L.t
      F == P.files[t]
      a == [x EXCEPT !.incl[f] = Append(@, [l |-> l, t |-> t, n |-> L.n]),
                     !.seen = @ \cup {t}]
      own == OwnHeader(P, a, f, t)
      b == IF f = P.main /\ t # f /\ own
           THEN [a EXCEPT !.assoc = @ \cup {t}, !.group = @ \cup {t}] ELSE a
      c == IF b.pend /\ f = P.main /\ t # f
           THEN [b EXCEPT !.assoc = @ \cup {t}, !.group = @ \cup {t}, !.pend = FALSE] ELSE b
      d == Internal(P, c, t, <<[f |-> F.q, n |-> Q(P, f), p |-> f]>>)
  IN Protect(P, d, f, t, L)

\* The file t is reached: it joins the files that are reported on.
Reached(P, x, f, t, entering) ==
  LET a == IF entering /\ OwnHeader(P, x, f, t) THEN [x EXCEPT !.group = @ \cup {t}] ELSE x
      b == IF entering THEN [a EXCEPT !.once = @ \cup {t}, !.entered = Append(@, t),
                                      !.prefix = IF f \in @ THEN @ \cup {t} ELSE @] ELSE a
  IN IF Report(P, b, t) /\ ~Contains(b.rep, t) THEN [b EXCEPT !.rep = Append(@, t)] ELSE b

\* ---- declarations and uses ---------------------------------------------------

\* An attribute of its own pins a declaration, unless it comes too late: after
\* the definition, if that has not got it.
Declare(P, x, f, l, L) ==
  LET ds == DeclsOf(x, L.e)
      at == \/ L.k = "def" /\ P.ents[L.e].attr
            \/ L.k = "fwd" /\ L.attr /\ (HasDef(x, L.e) => \E i \in 1..Len(ds) : ds[i].at)
  IN [x EXCEPT !.decl = Append(@, [e |-> L.e, f |-> f, l |-> l, dfn |-> L.k = "def",
                                 cls |-> L.k \in {"def", "fwd"},
                                 m |-> L.m, at |-> at, pin |-> L.pin \/ (at /\ L.k = "fwd"), ti |-> x.ti, op |-> L.op])]

KnownDecl(x, e) == DeclsOf(x, e) # << >>
\* A use of a macro counts where its token is written.
UseMacros(P, x, ms) ==
  LET use(m) == [k |-> "sym", s |-> m.s, d |-> m.d.f, dl |-> m.d.l, l |-> m.at.l, sg |-> "", ign |-> FALSE,
                 ti |-> x.ti, pub |-> << >>]
      RECURSIVE Go(_, _)
      Go(y, i) ==
        IF i > Len(ms) THEN y
        ELSE LET m == ms[i]
                 f == m.at.f
                 z == [y EXCEPT !.musers = @ \cup {<<m.d.f, f>>}]
             IN Go(IF f # 0 /\ Report(P, x, f) THEN [z EXCEPT !.pre[f] = Append(@, use(m))] ELSE z, i + 1)
  IN Go(x, 1)

DefineMacro(P, x, f, l, L) ==
  LET y == IF Report(P, x, f) THEN UseMacros(P, x, Mentioned(x, f, l, L)) ELSE x
  IN [y EXCEPT !.macro = Append(@, [e |-> L.e, f |-> f, l |-> l, on |-> L.k = "mdef", b |-> L.b, be |-> L.be])]

UseMacro(P, x, f, l, L) ==
  LET here == Place(f, l)
      got == Expansion(x, L.e, here, here, [e |-> L.arg, at |-> here, m |-> L.argm, x |-> FALSE], L.k = "muse")
      def == InForce(x, L.e)
      uses == SelectSeq(got.ev, LAMBDA v : v.k # "sym")
      via(v) == [k |-> v.k, s |-> v.s, f |-> v.at.f, l |-> v.at.l, ti |-> x.ti, xf |-> f, xl |-> l]
      ill(v) == ~KnownDecl(x, v.s) \/ (v.k = "full" /\ ~HasDef(x, v.s))
  IN IF L.k = "mtest" /\ L.b # "if"
     THEN IF def = << >> THEN x ELSE UseMacros(P, x, <<MacroUse(L.e, here, Place(def[1].f, def[1].l))>>)
     ELSE [UseMacros(P, x, SelectSeq(got.ev, LAMBDA v : v.k = "sym")) EXCEPT
             !.uses = @ \o [i \in 1..Len(uses) |-> via(uses[i])],
             !.bad = @ \/ got.bad \/ \E i \in 1..Len(uses) : ill(uses[i])]

\* A call mentions the function and calls it: two uses.  An enumeration that is
\* declared is complete, but to name one of its enumerators takes its definition.
UseEntity(P, x, f, l, L) ==
  LET u == [k |-> L.k, s |-> L.e, f |-> f, l |-> l, ti |-> x.ti]
      as(k) == [u EXCEPT !.k = IF k = "ptr" /\ Undeclarable(P, L.e) THEN "full" ELSE k]
      enum == L.k \in {"ptr", "full"} /\ IsEnum(P, L.e)
      k == IF enum THEN "ptr" ELSE L.k
  IN [x EXCEPT !.uses = @ \o (CASE k = "fn" -> <<u, u>> [] k = "enum" -> <<as("full"), as("ptr")>> [] OTHER -> <<as(k)>>),
            !.bad = @ \/ ~KnownDecl(x, L.e) \/ (k \in {"full", "enum"} /\ ~HasDef(x, L.e))]

\* A piece of code that uses types in some way (see IwyuUse).
OpsKnown(x, names) ==
  [e \in names |-> LET d == DefsOf(x, e) IN IF d = << >> THEN "" ELSE d[1].op]

RECURSIVE NamesIn(_)
NamesIn(y) == (IF y.e = "" THEN {} ELSE {y.e}) \cup (IF y.a = << >> THEN {} ELSE NamesIn(y.a[1]))

Ill(x, ns) == \E i \in 1..Len(ns) : ~KnownDecl(x, ns[i].e) \/ (ns[i].k = "full" /\ ~HasDef(x, ns[i].e))

\* The bases of a class.
UseBases(x, f, l, L) ==
  [x EXCEPT !.uses = @ \o [i \in 1..Len(L.x) |-> [k |-> "full", s |-> L.x[i], f |-> f, l |-> l, ti |-> x.ti]],
            !.bad = @ \/ Ill(x, [i \in 1..Len(L.x) |-> Need(L.x[i], "full")])]

CodeNeeds(P, x, f, L) == Code(OpsKnown(x, NamesIn(L.y) \cup {L.z}), L, f # P.main)

\* What a piece needs is decided when all declarations are known.
UseCode(P, x, f, l, L) ==
  LET c == CodeNeeds(P, x, f, L)
  IN [x EXCEPT !.uses = Append(@, [k |-> "code", f |-> f, l |-> l, ti |-> x.ti, code |-> L]),
               !.bad = @ \/ ~c.ok \/ Ill(x, c.u)]

\* ---- steps --------------------------------------------------------------------

\* Conditions: text after a test that fails, up to #else or #endif, is as if it
\* were not there.  x.cond has the open conditions, the innermost last.
RECURSIVE Value(_, _)
Value(x, e) ==
  LET def == InForce(x, e)
  IN def # << >> /\ CASE def[1].b = "mac" -> Value(x, def[1].be) [] OTHER -> def[1].b = "one"

Holds(x, L) ==
  CASE L.b = "and" -> FALSE
    [] L.b = "if" -> Value(x, L.e)
    [] L.b \in {"ifndef", "ndefined", "elifndef"} -> InForce(x, L.e) = << >>
    [] OTHER -> InForce(x, L.e) # << >>

Skipping(x) == x.cond # << >> /\ ~x.cond[Len(x.cond)].on
InCond(x, f) == x.cond # << >> /\ x.cond[Len(x.cond)].f = f

Test(P, x, f, l, L) ==
  LET c(a, b) == [f |-> f, on |-> a, other |-> b, first |-> TRUE]
  IN IF Skipping(x) THEN [x EXCEPT !.cond = Append(@, c(FALSE, FALSE))]
     ELSE [UseMacro(P, x, f, l, L) EXCEPT !.cond = Append(@, c(Holds(x, L), ~Holds(x, L)))]
Else(x, f) ==
  IF ~InCond(x, f) \/ ~x.cond[Len(x.cond)].first THEN [x EXCEPT !.bad = TRUE]
  ELSE [x EXCEPT !.cond[Len(x.cond)] = [@ EXCEPT !.on = x.cond[Len(x.cond)].other, !.other = FALSE, !.first = FALSE]]
EndIf(x, f) == IF InCond(x, f) THEN [x EXCEPT !.cond = SubSeq(@, 1, Len(@) - 1)] ELSE [x EXCEPT !.bad = TRUE]

Leave(P, x, f) ==
  LET a == IF IsOpen(x, "e", f)
           THEN LET o == CHOOSE o \in OpenOf(x, "e", f) : TRUE
                IN [Diag(x, f, o.l, "begin_exports without an end_exports") EXCEPT !.open = @ \ {o}]
           ELSE x
      closed(y) == [y EXCEPT !.bad = @ \/ InCond(y, f), !.cond = SelectSeq(@, LAMBDA c : c.f # f)]
  IN closed(IF IsOpen(a, "k", f)
     THEN LET o == CHOOSE o \in OpenOf(a, "k", f) : TRUE
          IN [Diag(a, f, o.l, "begin_keep without an end_keep") EXCEPT !.open = @ \ {o}]
     ELSE a)

IsPragma(L) == L.k = "prag"

LineMark(P, x, f, l, L) == IF L.m = "" THEN x ELSE Pragma(P, x, f, l, L.m, L)

Top == stack[Len(stack)]

Ready == stack # << >> /\ (Len(stack) = 1 /\ stack[1].l = 0 => w.todo = << >>)

ReadLine ==
  /\ Ready
  /\ LET P == prog
         f == Top.f
         l == Top.l + 1
     IN /\ l <= Len(P.files[f].lines)
        /\ LET L == P.files[f].lines[l]
               x0 == [w EXCEPT !.ti = @ + 1]
               \* a mark at the end of a line with an include is read first
               x == LineMark(P, x0, f, l, L)
               st == [stack EXCEPT ![Len(stack)].l = l]
           IN CASE L.k = "mtest" -> w' = Test(P, x0, f, l, L) /\ stack' = st
                [] L.k = "else" -> w' = Else(x0, f) /\ stack' = st
                [] L.k = "endif" -> w' = EndIf(x0, f) /\ stack' = st
                [] Skipping(w) -> w' = [x0 EXCEPT !.skipped = @ \cup {<<f, l>>}] /\ stack' = st
                [] L.k = "inc" ->
                     LET y == AddInclude(P, x, f, l, L)
                         entering == L.t \notin y.once
                     IN /\ w' = Reached(P, y, f, L.t, entering)
                        /\ stack' = IF entering THEN Append(st, [f |-> L.t, l |-> 0]) ELSE st
                [] L.k = "prag" -> w' = Pragma(P, x0, f, l, L.op, L) /\ stack' = st
                [] L.k \in {"def", "fwd", "fdecl"} ->
                     /\ w' = UseBases(Declare(P, x, f, l, L), f, l, L)
                     /\ stack' = st
                [] L.k = "code" -> w' = UseCode(P, x, f, l, L) /\ stack' = st
                [] L.k \in {"mdef", "undef"} ->
                     w' = DefineMacro(P, x, f, l, L) /\ stack' = st
                [] L.k = "muse" -> w' = UseMacro(P, x, f, l, L) /\ stack' = st
                [] L.k \in {"ptr", "full", "fn", "enum"} -> w' = UseEntity(P, x, f, l, L) /\ stack' = st
                [] OTHER -> w' = x /\ stack' = st
  /\ UNCHANGED sid

LeaveFile ==
  /\ Ready
  /\ Top.l = Len(prog.files[Top.f].lines)
  /\ w' = Leave(prog, w, Top.f)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED sid

\* Reading begins with the prefix headers of the command line, if there are
\* any, then the main file.
StartPrefix ==
  /\ stack = <<[f |-> prog.main, l |-> 0]>> /\ w.todo # << >>
  /\ LET P == prog
         t == Head(w.todo)
         x == Internal(P, [w EXCEPT !.todo = Tail(@)], t, << >>)
         y == [x EXCEPT !.once = @ \cup {t}, !.entered = Append(@, t), !.prefix = @ \cup {t},
                        !.seen = @ \cup {t},
                        !.group = IF OwnHeader(P, x, 0, t) THEN @ \cup {t} ELSE @]
     IN IF t \in x.once THEN w' = x /\ UNCHANGED stack
        ELSE /\ w' = [y EXCEPT !.rep = IF Report(P, y, t) /\ ~Contains(y.rep, t) THEN Append(@, t) ELSE @]
             /\ stack' = Append(stack, [f |-> t, l |-> 0])
  /\ UNCHANGED sid

Next == StartPrefix \/ ReadLine \/ LeaveFile

StartW(P) ==
  [InitW(P) EXCEPT !.group = {P.main}, !.once = {P.main}, !.entered = <<P.main>>,
     !.rep = <<P.main>>, !.seen = {P.main}, !.todo = P.pfx]

StartStack(P) == <<[f |-> P.main, l |-> 0]>>

\* ---- when all has been read -----------------------------------------------------

\* Uses by the program text, attributed once all declarations are known.
WithUses(P, x) ==
  LET \* the author of a declaration means to provide what it names, unless he
      \* only declares it and does not include its definition
      provides(u) ==
        LET ds == DeclsOf(x, u.s)
            def == MainDecl(x, u.s)
        IN \/ ~\E i \in 1..Len(ds) : SeenBefore(ds[i], u.f, u.l)
           \/ HasDef(x, u.s) /\ (SeenBefore(def, u.f, u.l)
                                 \/ \E k \in 1..Len(x.incl[u.f]) : x.incl[u.f][k].t = def.f)
      kind(u) == IF u.k # "intent" THEN u.k ELSE IF provides(u) THEN "full" ELSE "ptr"
      RECURSIVE Flat(_)
      Flat(us) ==
        IF us = << >> THEN << >>
        ELSE LET u == Head(us)
                 n == IF u.k = "code" THEN CodeNeeds(P, x, u.f, u.code).u ELSE << >>
             IN (IF u.k # "code" THEN <<u>>
                 ELSE [i \in 1..Len(n) |-> [k |-> IF n[i].k = "want" THEN "full" ELSE n[i].k, s |-> n[i].e,
                                            f |-> u.f, l |-> u.l, ti |-> u.ti]]) \o Flat(Tail(us))
      mk(u) == LET d == IF "hint" \in DOMAIN u THEN u.hint ELSE MainDecl(x, u.s)
               IN [k |-> kind(u), s |-> u.s, d |-> d.f, dl |-> d.l, l |-> u.l, sg |-> "",
                   ign |-> FALSE, ti |-> u.ti, pub |-> << >>]
      RECURSIVE Attributed(_)
      Attributed(us) ==
        IF us = << >> THEN << >>
        ELSE (IF "xf" \in DOMAIN us[1] THEN Settled(x, us[1]) ELSE <<us[1]>>) \o Attributed(Tail(us))
      all == Attributed(x.uses)
  IN [x EXCEPT !.ast = [f \in Files(P) |->
        LET us == Flat(SelectSeq(all, LAMBDA u : u.f = f)) IN [i \in 1..Len(us) |-> mk(us[i])]]]

\* Headers that use a macro of the file that includes them.
RECURSIVE MacroHosts(_, _, _)
MacroHosts(P, x, i) ==
  IF i > Len(x.entered) THEN x
  ELSE
    LET f == x.entered[i]
        inc == SelectSeq(x.entered, LAMBDA t :
                 <<f, t>> \in x.musers /\ \E k \in 1..Len(x.incl[f]) : x.incl[f][k].t = t)
        RECURSIVE Each(_, _)
        Each(y, j) ==
          IF j > Len(inc) THEN y
          ELSE LET t == inc[j]
               IN Each(IF Report(P, x, f) THEN [y EXCEPT !.kept = @ \cup {<<f, t>>}]
                       ELSE IF t = f \/ MarkedPublic([edges |-> << >>, vis |-> y.vis], Q(P, t)) THEN y
                       ELSE [y EXCEPT !.edges = Append(@, [f |-> Q(P, t), n |-> Q(P, f), p |-> f]),
                                      !.vis = @ \cup {<<Q(P, t), "private">>}], j + 1)
    IN MacroHosts(P, IF f \in x.prefix THEN x ELSE Each(x, 1), i + 1)

SeenNames(P, x) ==
  LET s == {Q(P, t) : t \in x.seen}
  IN SelectSeq(P.names, LAMBDA n : n \in s)

Picker(P, x) ==
  LET hdrs == SeenNames(P, x)
      rx == x.maps.rx
      keys == SetToSortSeq({rx[i].key : i \in 1..Len(rx)}, LAMBDA a, b : P.rank[a] < P.rank[b])
  IN [edges |-> ExpandHdr(x.edges, rx, keys, hdrs, 1),
      vis |-> x.vis \cup RxVis(rx, keys, x.vis, hdrs),
      pvis |-> x.pvis, syms |-> (IF P.opts.nobuiltin THEN << >> ELSE BuiltinSyms) \o x.maps.syms, friends |-> x.friends]

\* Includes that are kept because of what all files say together.
LateProtect(P, x, pk) ==
  LET inc(f) == {x.incl[f][k].t : k \in 1..Len(x.incl[f])}
      mapped(f, t) == HasMapping(pk, Q(P, t), Q(P, f))
      use(f, t) == [k |-> "inc", s |-> "", d |-> t, dl |-> 0, l |-> 0, sg |-> NameIn(P, x, f, t), ign |-> FALSE,
                    ti |-> 0, pub |-> << >>]
      late(f) == SelectSeq(x.entered, LAMBDA t : t \in inc(f) /\ (mapped(f, t) \/ t \in x.akeep))
  IN [x EXCEPT !.pre = [f \in Files(P) |-> x.pre[f] \o [i \in 1..Len(late(f)) |-> use(f, late(f)[i])]],
               !.kept = @ \cup {<<f, t>> : <<f, t>> \in {ft \in Files(P) \X Files(P) :
                           ft[2] \in inc(ft[1]) /\ ft[2] \in x.akeep /\ ~mapped(ft[1], ft[2])}}]

RECURSIVE Grow(_, _)
Grow(x, S) ==
  LET N == S \cup UNION {{x.incl[f][k].t : k \in 1..Len(x.incl[f])} : f \in S}
  IN IF N = S THEN S ELSE Grow(x, N)

Transitive(P, x) == UNION {{<<f, t>> : t \in Grow(x, {f})} : f \in Files(P)}

\* The advice for every reported file, headers before the main file.
Outcome(P, x0) ==
  LET x1 == MacroHosts(P, WithUses(P, x0), 1)
      pk == Picker(P, x1)
      x == LateProtect(P, x1, pk)
      T == Transitive(P, x)
      order == SelectSeq(x.rep, LAMBDA f : f # P.main) \o <<P.main>>
      RECURSIVE Go(_, _)
      Go(i, prev) ==
        IF i > Len(order) THEN prev
        ELSE Go(i + 1, [prev EXCEPT ![order[i]] = Decide(P, x, pk, T, order[i], prev)])
      none == [f \in Files(P) |-> [f |-> f, des |-> {}, us |-> << >>, lines |-> << >>]]
  IN [order |-> order, adv |-> Go(1, none), w |-> x, pk |-> pk, T |-> T]

Done == stack = << >>
=============================================================================
