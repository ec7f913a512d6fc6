------------------------------ MODULE SimGraph ------------------------------
(* The simulation graph (P41).  Each train, in the order of the timetable, has *)
(* Run consecutive nodes that follow each other; order edges <<a, b>> make b   *)
(* wait for a.  A node is finished once its exit is distributed and ready once *)
(* all nodes it waits for are finished.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
D == INSTANCE Dpd
Init0 == <<>>

Run == 3                                  \* entering and two closing nodes
Final(c) == Run * c.trains - 1
Before(c, n) == IF n % Run = 0 THEN 0 - 1 ELSE n - 1
After(c, n) == IF n % Run = Run - 1 THEN 0 - 1 ELSE n + 1
Own(n) == IF n < 0 THEN <<>> ELSE <<n>>
Into(c, n) == Own(Before(c, n)) \o FoldSeq(LAMBDA e, acc : IF e[2] = n THEN Append(acc, e[1]) ELSE acc, <<>>, c.edges)
OutOf(c, n) == Own(After(c, n)) \o FoldSeq(LAMBDA e, acc : IF e[1] = n THEN Append(acc, e[2]) ELSE acc, <<>>, c.edges)
Graph(c) ==
  [ nodes |-> [i \in 1..(Run * c.trains) |-> LET n == i - 1 IN
      << n, n \div Run, Before(c, n) >= 0, Before(c, n), After(c, n) >= 0, After(c, n), Into(c, n), OutOf(c, n),
         Cardinality({j \in DOMAIN c.edges : c.edges[j][2] = n}), Cardinality({j \in DOMAIN c.edges : c.edges[j][1] = n}), TRUE >>],
    trains |-> [i \in 1..c.trains |-> <<Run * (i - 1), Run * i>>] ]

Elems(s) == {s[i] : i \in DOMAIN s}
Ready(c, done) == {n \in 0..Final(c) : Elems(Into(c, n)) \subseteq done}
Ups(S) == SetToSortSeq(S, <)
RECURSIVE Ahead(_, _, _)
Ahead(c, front, seen) ==
  LET new == (UNION {Elems(OutOf(c, n)) : n \in front}) \ seen IN
  IF new = {} THEN seen ELSE Ahead(c, new, seen \cup new)
From(c, n) == Ahead(c, Elems(OutOf(c, n)), Elems(OutOf(c, n)))
Paths(c) == LET S == {x \in (0..Final(c)) \X (0..Final(c)) : x[1] # x[2] /\ x[2] \in From(c, x[1])} IN
            SetToSortSeq(S, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))

\* the later of two independent times: every pair of cells counts at its later value
Of(s) == FoldSeq(LAMBDA x, d : D!Put(d, <<D!Round(x[1], 6), 0>>, x[2]), <<>>, s)
LaterOf(a, b) ==
  LET A == D!Cells1(Of(a), 6)  B == D!Cells1(Of(b), 6) IN
  D!Cells1(FoldSeq(LAMBDA x, d : FoldSeq(LAMBDA y, e : D!Put(e, <<IF x[1] > y[1] THEN x[1] ELSE y[1], 0>>, x[2] * y[2]), d, B), <<>>, A), 6)

\* laws: executing ready nodes one after the other finishes all of them exactly if no node
\* waits for itself; nothing that is not waited for holds up a node
Waits(c, n) == {m \in 0..Final(c) : n \in From(c, m)}
RECURSIVE Exec(_, _)
Exec(c, done) == LET r == Ready(c, done) \ done IN IF r = {} THEN done ELSE Exec(c, done \cup r)
Laws(c) == /\ (Exec(c, {}) = 0..Final(c)) <=> (\A n \in 0..Final(c) : n \notin From(c, n))
           /\ \A n \in 0..Final(c) : n \in Ready(c, Waits(c, n))

Say(v, st) == {[res |-> <<"ok", v>>, st |-> st]}
Apply(op, c, st) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> st]}
    [] op = "graph" -> Say(Graph(c), st)
    [] op = "ready" -> Say([finished |-> Ups(Elems(c.done)), ready |-> Ups(Ready(c, Elems(c.done)))], st)
    [] op = "paths" -> Say(Paths(c), st)
    [] op = "later" -> Say(LaterOf(c.a, c.b), st)
=============================================================================
