------------------------------- MODULE Graphs ------------------------------
(* Directed graphs: c.g[i+1] lists the successors of node i. Cycles, breadth   *)
(* and depth first walks, transitive reduction.                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Init0 == 0
One(res, st) == {[res |-> res, st |-> st]}
Law(P(_, _), c, st) == IF "res" \in DOMAIN c THEN IF c.res[1] = "ok" /\ P(c, c.res[2]) THEN One(c.res, st) ELSE {} ELSE One(<<"ok">>, st)

Nodes(g) == 0..(Len(g) - 1)
Out(g, n) == {g[n + 1][i] : i \in 1..Len(g[n + 1])}
OutOf(g, S) == UNION {Out(g, n) : n \in S}
RECURSIVE Close(_, _)
Close(g, S) == LET T == TLCEval(S \cup OutOf(g, S)) IN IF T = S THEN S ELSE Close(g, T)
\* what n reaches over at least one edge
Beyond(g, n) == Close(g, Out(g, n))
Cyclic(g) == \E n \in Nodes(g) : n \in Beyond(g, n)

\* distance from S to n, 0 if n is in S, -1 if there is none
RECURSIVE DistFrom(_, _, _, _)
DistFrom(g, S, n, d) == IF n \in S THEN d ELSE LET T == TLCEval(S \cup OutOf(g, S)) IN IF T = S THEN -1 ELSE DistFrom(g, T, n, d + 1)
Dist(g, a, b) == DistFrom(g, {a}, b, 0)
\* length of the shortest cycle through n
Around(g, n) == 1 + DistFrom(g, Out(g, n), n, 0)

-----------------------------------------------------------------------------
\* cycles
Closed(g, w) == /\ w # <<>>
                /\ \A i \in 1..Len(w) : w[i] \in Nodes(g)
                /\ \A i \in 1..(Len(w) - 1) : w[i + 1] \in Out(g, w[i])
                /\ w[1] \in Out(g, w[Len(w)])
                /\ Cardinality({w[i] : i \in 1..Len(w)}) = Len(w)
CycleOk(c, r) ==
  LET On == TLCEval({n \in Nodes(c.g) : n \in Beyond(c.g, n)})
      len == TLCEval([n \in On |-> Around(c.g, n)])
  IN /\ r.has = (On # {})
     /\ r.has => Closed(c.g, r.cycle) /\ Len(r.cycle) = Min({len[n] : n \in On})
     /\ ~r.has => r.cycle = <<>>
     \* one for every node that lies on a cycle, a shortest one through it
     /\ Len(r.all) = Cardinality(On)
     /\ \A i \in 1..Len(r.all) : Closed(c.g, r.all[i])
     /\ \A n \in On : \E i \in 1..Len(r.all) : (\E j \in 1..Len(r.all[i]) : r.all[i][j] = n) /\ Len(r.all[i]) = len[n]

-----------------------------------------------------------------------------
\* walks: the log holds <<node, reached from, 0>> and <<from, to, 1>>
Visits(r) == SelectSeq(r, LAMBDA x : x[3] = 0)
Stops(c, x) == IF x[3] = 0 THEN \E i \in 1..Len(c.stop_n) : c.stop_n[i] = x[1] ELSE \E i \in 1..Len(c.stop_e) : c.stop_e[i][1] = x[1] /\ c.stop_e[i][2] = x[2]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
EdgesFrom(r, n) == LET s == SelectSeq(r, LAMBDA x : x[3] = 1 /\ x[1] = n) IN [i \in 1..Len(s) |-> s[i][2]]
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Within(a, b) == \A i \in 1..Len(a) : Count(a, a[i]) <= Count(b, a[i])
WalkOk(c, r) ==
  LET v == TLCEval(Visits(r))
      order == TLCEval([i \in 1..(Len(v) + 1) |-> IF i = 1 THEN c.start ELSE v[i - 1][1]])
      pos(n) == CHOOSE i \in 1..Len(order) : order[i] = n
      stopped == r # <<>> /\ Stops(c, r[Len(r)])
      dist == TLCEval([n \in Nodes(c.g) |-> Dist(c.g, c.start, n)])
      last == IF stopped THEN IF r[Len(r)][3] = 0 THEN order[Len(order)] ELSE r[Len(r)][1] ELSE -1
  IN \* nothing comes after what stops the walk
     /\ \A i \in 1..(Len(r) - 1) : ~Stops(c, r[i])
     \* every node once, each reached over an edge from a node visited before
     /\ Cardinality({order[i] : i \in 1..Len(order)}) = Len(order)
     /\ \A i \in 1..Len(v) : /\ \E j \in 1..i : order[j] = v[i][2]
                             /\ v[i][1] \in Out(c.g, v[i][2])
     /\ ~stopped => {order[i] : i \in 1..Len(order)} = {c.start} \cup Beyond(c.g, c.start)
     \* the edges of a node once each, when it has been visited and before the next is
     /\ c.edges => /\ \A i \in 1..Len(r) : r[i][3] = 1 => LET k == Cardinality({j \in 1..i : r[j][3] = 0}) IN r[i][1] = order[k + 1]
                   /\ \A i \in 1..Len(order) : LET e == EdgesFrom(r, order[i]) IN
                        IF order[i] = last THEN Within(e, c.g[order[i] + 1]) ELSE SameBag(e, c.g[order[i] + 1])
     /\ ~c.edges => Len(v) = Len(r)
     /\ IF c.deep
        \* go on from the node that was reached last
        THEN \A i, j \in 1..Len(v) : (i < j /\ pos(v[j][2]) < pos(v[i][1])) => pos(v[j][2]) <= pos(v[i][2])
        \* in order of the distance
        ELSE /\ \A i \in 1..(Len(v) - 1) : dist[v[i][1]] <= dist[v[i + 1][1]]
             /\ \A i \in 1..Len(v) : dist[v[i][2]] + 1 = dist[v[i][1]]

-----------------------------------------------------------------------------
\* of the successors of n those that no other successor reaches
Direct(g, n) == LET O == Out(g, n) IN {m \in O : \A k \in O \ {m} : m \notin Beyond(g, k)}
AsSet(s) == {s[i] : i \in 1..Len(s)}
NoRepeat(s) == Cardinality(AsSet(s)) = Len(s)
ReduceOk(c, r) ==
  LET keep == TLCEval([n \in Nodes(c.g) |-> Direct(c.g, n)])
  IN /\ Len(r.out) = Len(c.g) /\ Len(r.in) = Len(c.g) /\ Len(r.ids) = Len(c.g)
     /\ \A n \in Nodes(c.g) :
          /\ r.ids[n + 1] = n
          /\ NoRepeat(r.out[n + 1]) /\ AsSet(r.out[n + 1]) = keep[n]
          /\ NoRepeat(r.in[n + 1]) /\ AsSet(r.in[n + 1]) = {m \in Nodes(c.g) : n \in keep[m]}

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "has_cycle" -> One(<<"ok", Cyclic(c.g)>>, st)
    [] op = "cycle" -> Law(CycleOk, c, st)
    [] op = "walk" -> Law(WalkOk, c, st)
    [] op = "reduce" -> Law(ReduceOk, c, st)

-----------------------------------------------------------------------------
\* all graphs with n nodes
AllGraphs(n) == {[i \in 1..n |-> SetToSortSeq(f[i], <)] : f \in [1..n -> SUBSET (0..(n - 1))]}
\* what the reduction promises
ReductionLaws(g) ==
  Cyclic(g) \/ LET h == [i \in 1..Len(g) |-> SetToSortSeq(Direct(g, i - 1), <)] IN
    /\ \A n \in Nodes(g) : Beyond(g, n) = Beyond(h, n)
    /\ \A n \in Nodes(g) : \A m \in Out(h, n) : LET without == [h EXCEPT ![n + 1] = SelectSeq(@, LAMBDA x : x # m)] IN m \notin Beyond(without, n)
=============================================================================
