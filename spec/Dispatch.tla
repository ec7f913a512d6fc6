------------------------------ MODULE Dispatch ------------------------------
(* Trains moving as an ordering graph prescribes (P14).                       *)
(* A trip uses the routes of its path, one node of the graph for each. A node *)
(* may be claimed once every node it waits for has been given back. Which     *)
(* routes exclude each other is derived from the plan (Interlocking), not     *)
(* taken from the implementation.                                             *)
(* State: the case observed, the nodes held now, the nodes given back.        *)
EXTENDS Interlocking, Json, IOUtils

\* [plan, irs, ids, graphs]; a graph: nodes <<route, in, out>>, trips <<first, behind the last, path>>
Given == ndJsonDeserialize(IOEnv.CASES)

CaseOf(T, C, g, number, view) ==
  LET N == 0..(Len(g.nodes) - 1)
      trip == TLCEval([n \in N |-> CHOOSE t \in DOMAIN g.trips \cup {0} :
                        IF t = 0 THEN \A u \in DOMAIN g.trips : ~(g.trips[u][1] <= n /\ n < g.trips[u][2])
                        ELSE g.trips[t][1] <= n /\ n < g.trips[t][2]])
      route == TLCEval([n \in N |-> g.nodes[n + 1][1]]) IN
  [ number |-> number, nodes |-> N, trip |-> trip,
    waits |-> TLCEval([n \in N |-> IF view = "in" THEN Rng(g.nodes[n + 1][2]) ELSE {m \in N : n \in Rng(g.nodes[m + 1][3])}]),
    rivals |-> TLCEval([n \in N |-> {m \in N : trip[m] # trip[n] /\ route[m] + 1 \in C[route[n] + 1]}]),
    \* every trip goes along its path
    along |-> /\ 0 \notin Rng(trip)
              /\ \A t \in DOMAIN g.trips : /\ g.trips[t][2] - g.trips[t][1] = Len(g.trips[t][3])
                                           /\ \A k \in DOMAIN g.trips[t][3] : g.trips[t][1] + k - 1 \in N /\ route[g.trips[t][1] + k - 1] = g.trips[t][3][k] ]
CasesOf(x) ==
  LET T == TLCEval(DeriveNet(x.plan) @@ [I |-> x.irs, ids |-> x.ids])
      C == TLCEval(Conflicts(T, T.I, T.ids)) IN
  {CaseOf(T, C, x.graphs[i], x.graphs[i].number, v) : i \in DOMAIN x.graphs, v \in {"in", "out"}}
Cases == TLCEval(SetToSeq(UNION {CasesOf(Given[i]) : i \in DOMAIN Given}))

VARIABLES c, held, done
Case == Cases[c]

Init == c \in DOMAIN Cases /\ held = {} /\ done = {}
Free(n) == n \notin held /\ n \notin done /\ Case.waits[n] \subseteq done
Claim == \E n \in Case.nodes : Free(n) /\ held' = held \cup {n} /\ UNCHANGED <<c, done>>
Release == \E n \in held : held' = held \ {n} /\ done' = done \cup {n} /\ UNCHANGED c
Next == Claim \/ Release

Faults ==
  {<<"both held", n, m>> : <<n, m>> \in {p \in held \X held : p[2] \in Case.rivals[p[1]]}}
  \cup {<<"out of order", n>> : n \in {m \in held \cup done : m - 1 \in Case.nodes /\ Case.trip[m - 1] = Case.trip[m] /\ m - 1 \notin done}}
  \cup (IF held = {} /\ done # Case.nodes /\ ~\E n \in Case.nodes : Free(n) THEN {<<"stuck">>} ELSE {})
  \cup (IF Case.along THEN {} ELSE {<<"not along its path">>})
\* every fault is reported, none is followed further
Watch == Faults = {} \/ PrintT("V" \o ToJson(<<Case.number, SetToSeq(Faults), SetToSeq(done), SetToSeq(held)>>))
Sound == Faults = {}
=============================================================================
