------------------------------ MODULE Ordering ------------------------------
(* The order in which the trips of a timetable use the interlocking routes    *)
(* (P13), and what following it means (P14).                                  *)
(* State: groups = groups of mutually exclusive routes; trains = [id, path    *)
(* (routes in driving order), days, dep, arr, times (when each but the first  *)
(* of its routes is entered)], times in seconds of the service day.           *)
(* A usage is one route of one trip; it begins when the route is entered.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Day == 86400
Norm(d, s) == <<d + s \div Day, s % Day>>
LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
LT(a, b) == a # b /\ LE(a, b)
RngOf(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* trips: those running at some time of the asked interval, of the asked trains *)
Running(t, d, q) == q.all \/ (LE(Norm(d, t.dep), q.to) /\ LE(q.from, Norm(d, t.arr)))
Asked(t, q) == q.trains = <<>> \/ t.id \in RngOf(q.trains)
\* a train that meets no main signal claims nothing anew on its way
TripsOf(st, q) == UNION {{<<i, d>> : d \in {e \in RngOf(st.trains[i].days) : Running(st.trains[i], e, q)}} :
                         i \in {j \in DOMAIN st.trains : Asked(st.trains[j], q) /\ st.trains[j].times # <<>>}}
Begins(t, d, k) == IF k = 1 THEN Norm(d, t.dep) ELSE Norm(d, t.times[k - 1])

-----------------------------------------------------------------------------
(* a graph g: nodes <<id, route, train, in, out>>, trips <<train, day, first, behind the last, ids>> *)
TripFaults(st, q, g) ==
  LET want == {<<st.trains[x[1]].id, x[2]>> : x \in TripsOf(st, q)}
      got == {<<x[1], x[2]>> : x \in RngOf(g.trips)}
      train(id) == CHOOSE t \in RngOf(st.trains) : t.id = id
      ranges == {x[3]..(x[4] - 1) : x \in RngOf(g.trips)}
      n == Len(g.nodes) IN
  {<<"no such trip", x>> : x \in got \ want} \cup {<<"trip missing", x>> : x \in want \ got}
  \cup (IF Len(g.trips) = Cardinality(got) THEN {} ELSE {<<"trip repeated">>})
  \cup (IF got \subseteq want
        THEN {<<"nodes of the trip", x>> : x \in {y \in RngOf(g.trips) :
                LET t == train(y[1]) IN
                ~ /\ y[4] - y[3] = Len(t.path) /\ y[4] <= n
                  /\ y[5] = [k \in 1..Len(t.path) |-> y[3] + k - 1]
                  /\ \A k \in DOMAIN t.path : LET m == g.nodes[y[3] + k] IN m[1] = y[3] + k - 1 /\ m[2] = t.path[k] /\ m[3] = t.id}}
        ELSE {})
  \cup (IF UNION ranges = 0..(n - 1) /\ \A a \in ranges, b \in ranges : a = b \/ a \cap b = {} THEN {} ELSE {<<"nodes and trips", n>>})

OutOf(g, n) == RngOf(g.nodes[n + 1][5])
RECURSIVE Close(_, _, _)
Close(g, S, front) == IF front = {} THEN S ELSE
  LET nx == TLCEval((UNION {OutOf(g, n) : n \in front}) \ S) IN Close(g, S \cup nx, nx)
Beyond(g, n) == Close(g, OutOf(g, n), OutOf(g, n))
Ids(g) == 0..(Len(g.nodes) - 1)

\* node -> <<trip, place in it, begin>>
UsageOf(st, g) ==
  LET tr(id) == CHOOSE t \in RngOf(st.trains) : t.id = id IN
  [n \in Ids(g) |-> LET x == CHOOSE y \in RngOf(g.trips) : y[3] <= n /\ n < y[4] IN
                    << <<x[1], x[2]>>, n - x[3] + 1, Begins(tr(x[1]), x[2], n - x[3] + 1) >>]
GroupsOf(st, ir) == {i \in DOMAIN st.groups : ir \in st.groups[i]}
Conflicts(st, g) ==
  LET of == TLCEval([n \in Ids(g) |-> GroupsOf(st, g.nodes[n + 1][2])]) IN
  {p \in Ids(g) \X Ids(g) : p[1] < p[2] /\ of[p[1]] \cap of[p[2]] # {}}

OrderFaults(st, g) ==
  LET reach == TLCEval([n \in Ids(g) |-> Beyond(g, n)])
      u == TLCEval(UsageOf(st, g))
      conf == TLCEval(Conflicts(st, g))
      both == TLCEval(conf \cup {<<p[2], p[1]>> : p \in conf})
      edges == TLCEval(UNION {{<<n, m>> : m \in OutOf(g, n)} : n \in Ids(g)})
      back == UNION {{<<m, n>> : m \in RngOf(g.nodes[n + 1][4])} : n \in Ids(g)}
      follows(a, b) == u[a][1] = u[b][1] /\ u[b][2] = u[a][2] + 1
      apart == {p \in both : u[p[1]][1] # u[p[2]][1]} IN
  {<<"cycle through", n>> : n \in {m \in Ids(g) : m \in reach[m]}}
  \cup {<<"not mirrored", e>> : e \in (edges \ back) \cup (back \ edges)}
  \cup {<<"repeated", n>> : n \in {m \in Ids(g) : LET x == g.nodes[m + 1] IN Len(x[4]) # Cardinality(RngOf(x[4])) \/ Len(x[5]) # Cardinality(RngOf(x[5]))}}
  \* every trip in its order
  \cup {<<"trip out of order", n>> : n \in {m \in Ids(g) : m + 1 \in Ids(g) /\ follows(m, m + 1) /\ m + 1 \notin reach[m]}}
  \* conflicting usages in the planned order
  \cup {<<"not ordered", p>> : p \in {x \in apart : LT(u[x[1]][3], u[x[2]][3]) /\ x[2] \notin reach[x[1]]}}
  \cup {<<"not ordered", p>> : p \in {x \in apart : u[x[1]][3] = u[x[2]][3] /\ x[2] \notin reach[x[1]] /\ x[1] \notin reach[x[2]]}}
  \* and nothing else
  \cup {<<"no reason for", e>> : e \in {x \in edges : ~follows(x[1], x[2]) /\ ~(x \in both /\ LE(u[x[1]][3], u[x[2]][3]))}}
  \cup {<<"implied", e>> : e \in {x \in edges : \E w \in OutOf(g, x[1]) \ {x[2]} : x[2] \in reach[w]}}
\* what the graph says of itself
SelfFaults(st, g) ==
  LET conf == TLCEval(Conflicts(st, g))
      without(e) == [nodes |-> [i \in DOMAIN g.nodes |-> IF i = e[1] + 1 THEN [g.nodes[i] EXCEPT ![5] = SelectSeq(g.nodes[i][5], LAMBDA x : x # e[2])] ELSE g.nodes[i]]]
      ordered(h) == LET reach == TLCEval([n \in {p[1] : p \in conf} \cup {p[2] : p \in conf} |-> Beyond(h, n)]) IN
                    \A p \in conf : p[2] \in reach[p[1]] \/ p[1] \in reach[p[2]] IN
  {<<"next of", x>> : x \in {y \in RngOf(g.next) : y[2] # y[1] + 1}}
  \cup (IF g.paths = ordered(g) THEN {} ELSE {<<"says of conflicts", g.paths>>})
  \cup (IF g.cyclic = (\E n \in Ids(g) : n \in Beyond(g, n)) THEN {} ELSE {<<"says of cycles", g.cyclic>>})
  \cup {<<"says of conflicts without", c>> : c \in {x \in RngOf(g.cuts) : x[3] # ordered(without(x))}}
GraphFaults(st, q, g) ==
  LET F == TripFaults(st, q, g) IN IF F # {} THEN F ELSE
  LET E == OrderFaults(st, g) IN IF E # {} THEN E ELSE SelfFaults(st, g)

Init0 == [groups |-> <<>>, trains |-> <<>>]
Verdict(F) == IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>
Apply(op, ev, st) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> [groups |-> [i \in DOMAIN ev.groups |-> RngOf(ev.groups[i])], trains |-> ev.trains]]}
    [] op = "order" -> {[res |-> IF ev.ok THEN Verdict(GraphFaults(st, ev.q, ev.got)) ELSE <<"no graph">>, st |-> st]}
=============================================================================
