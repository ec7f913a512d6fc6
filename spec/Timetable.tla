----------------------------- MODULE Timetable -----------------------------
(* Timetables (P20, P21): what a timetable file says about each construction  *)
(* train, which of them the system takes over, and how a train's station      *)
(* routes are expressed in interlocking routes.                               *)
(* A construction train as the files state it: number, services (<<1, day,    *)
(* mask>> for a range, <<2, day>> an included day, <<3, day>> an excluded     *)
(* one), pts = <<station, route, arrival, departure, stop mode, dwell>> with  *)
(* times <<h, m, s, next day>> and dwells <<h, m, s, hundredths>>, -1 being   *)
(* left out.                                                                  *)
EXTENDS Interlocking

DaySecs == 86400
Clock(t) == IF t = <<>> THEN 0 - 1 ELSE t[1] * 3600 + t[2] * 60 + t[3] + t[4] * DaySecs
Part0(x) == IF x < 0 THEN 0 ELSE x
Dwell(d) == IF d = <<>> THEN 0 ELSE Part0(d[1]) * 3600 + Part0(d[2]) * 60 + Part0(d[3]) + (IF d[4] >= 50 THEN 1 ELSE 0)

ServiceDays(ss) == FoldSeq(LAMBDA s, acc :
    CASE s[1] = 1 -> acc \cup {s[2] + i - 1 : i \in {j \in DOMAIN s[3] : s[3][j]}}
      [] s[1] = 2 -> acc \cup {s[2]}
      [] s[1] = 3 -> acc \ {s[2]}
      [] OTHER -> acc, {}, ss)       \* days of other kinds are left out of account
Sorted(S) == SetToSortSeq(S, <)

\* the station route a stop names, 0 when there is none
RouteOf(T, p) == LET S == {k \in DOMAIN T.P.routes : T.P.routes[k].name = p[2] /\ T.P.names[T.P.routes[k].st] = p[1]} IN
                 IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
IsStop(p) == p[5] # 0
StopKind == [x \in {0, 2, 3, 4} |-> CASE x = 0 -> "transit" [] x = 2 -> "operations" [] x = 3 -> "request" [] x = 4 -> "passenger"]
Passing(p) == p[5] = 0 /\ p[4] # <<>>
HaltOf(T, k, freight) == IndexOf(T.R[k].path, IF freight THEN T.P.routes[k].freight ELSE T.P.routes[k].pass)
PointOf(T, k) == IndexOf(T.R[k].path, T.P.routes[k].rtcp)

Supported(T, stock, c) ==
  /\ \A i \in DOMAIN c.pts : RouteOf(T, c.pts[i]) # 0
  /\ \A i \in DOMAIN c.vehicles : \E x \in Rng(stock) : x[1] = c.vehicles[i][1] /\ x[2][1] = c.vehicles[i][2]
  /\ ~c.ctc /\ ~c.bi /\ ~c.bo /\ Len(c.pts) >= 2
  /\ IsStop(c.pts[1]) /\ IsStop(c.pts[Len(c.pts)])
  /\ \A i \in DOMAIN c.pts :
       LET k == RouteOf(T, c.pts[i]) IN
       /\ IsStop(c.pts[i]) => HaltOf(T, k, c.freight) >= 0
       /\ Passing(c.pts[i]) => PointOf(T, k) >= 0

\* what the loaded train says
TopSpeed(stock, c) == LET S == {x[2][2] : x \in {y \in Rng(stock) : \E i \in DOMAIN c.vehicles : y[1] = c.vehicles[i][1] /\ y[2][1] = c.vehicles[i][2]}} IN
                      Min({c.speed} \cup S) * 1000
Noted(T, c) == LET all == [i \in DOMAIN c.pts |-> LET p == c.pts[i] IN
                   <<RouteOf(T, p), StopKind[p[5]], Clock(p[3]), Clock(p[4]), Dwell(p[6])>>] IN
               [i \in DOMAIN SelectSeq([j \in DOMAIN all |-> j], LAMBDA j : IsStop(c.pts[j]) \/ Passing(c.pts[j])) |->
                   all[SelectSeq([j \in DOMAIN all |-> j], LAMBDA j : IsStop(c.pts[j]) \/ Passing(c.pts[j]))[i]]]
At(day, sec) == <<day + (sec \div DaySecs), sec % DaySecs>>
\* the times of the points on a day
TimesOn(T, c, day) == FoldSeq(LAMBDA p, acc : acc \o (IF p[3] >= 0 THEN <<At(day, p[3])>> ELSE <<>>) \o (IF p[4] >= 0 THEN <<At(day, p[4])>> ELSE <<>>),
                              <<>>, Noted(T, c))
TrainRecord(T, stock, c) ==
  LET days == ServiceDays(c.services)
      dep == Clock(c.pts[1][4])
      arr == Clock(c.pts[Len(c.pts)][3])
      notes == TLCEval(Noted(T, c)) IN
  [ abs |-> <<At(Min(days), dep), At(Max(days), arr), At(Min(days), dep), At(Min(days), arr)>> \o TimesOn(T, c, Min(days)),
    points2 |-> <<Len(notes), Cardinality({i \in DOMAIN notes : notes[i][2] = "transit"})>>,
    number |-> c.number, break |-> <<c.bi, c.bo>>, points |-> Noted(T, c), days |-> Sorted(days), trips |-> Cardinality(days),
    halts |-> Cardinality({i \in DOMAIN c.pts : IsStop(c.pts[i])}), freight |-> c.freight, ctc |-> c.ctc,
    length |-> c.len, weight |-> c.weight * 1000, speed |-> TopSpeed(stock, c) ]

Later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Span(cs) ==   \* from the first departure to the last arrival of all trains
  LET firsts == {At(Min(ServiceDays(c.services)), Clock(c.pts[1][4])) : c \in cs}
      lasts == {At(Max(ServiceDays(c.services)), Clock(c.pts[Len(c.pts)][3])) : c \in cs} IN
  <<CHOOSE x \in firsts : \A y \in firsts : ~Later(x, y), CHOOSE x \in lasts : \A y \in lasts : ~Later(y, x)>>

-----------------------------------------------------------------------------
(* P21: expressing a drive over station routes in interlocking routes *)
\* all positions of a drive over the station routes, and where it starts and ends on them
RECURSIVE Places(_, _)
Places(T, ks) == IF ks = <<>> THEN <<>> ELSE Piece(ks[1], 0, Size(T, ks[1])) \o Places(T, Tail(ks))
IdOf(ids, p) == ids[p[1]][p[2] + 1]
RECURSIVE Squeeze(_, _)   \* a node reached twice in a row is one node
Squeeze(s, acc) == IF s = <<>> THEN acc
                   ELSE Squeeze(Tail(s), IF acc # <<>> /\ acc[Len(acc)] = s[1] THEN acc ELSE Append(acc, s[1]))
RoutesOf(T, c) == [i \in DOMAIN c.pts |-> RouteOf(T, c.pts[i])]
StartAt(T, c) == HaltOf(T, RouteOf(T, c.pts[1]), c.freight) + 1
EndAt(T, c) ==
  LET ks == RoutesOf(T, c) IN
  Sum([i \in 1..(Len(ks) - 1) |-> Size(T, ks[i])]) + HaltOf(T, ks[Len(ks)], c.freight) + 1
\* how far the train drives: a border and its partner are one place
DistanceOf(T, c) ==
  LET ks == RoutesOf(T, c)
      n == Len(ks)
      from == T.R[ks[1]].cum[StartAt(T, c)]
      upto == T.R[ks[n]].cum[HaltOf(T, ks[n], c.freight) + 1] IN
  Sum([i \in 1..(n - 1) |-> T.R[ks[i]].len]) + upto - from
Continuous(T, ks) == \A i \in 1..(Len(ks) - 1) : ks[i + 1] \in T.succ[ks[i]]

\* an interlocking route runs along the drive at place p when, from its at-th node on, it
\* keeps to the drive for as long as either lasts
Along(ns, at, P, p) == \A t \in 0..(Min2(Len(ns) - at, Len(P) - p)) : ns[at + t] = P[p + t]
\* all ways of expressing the drive: sequences of interlocking routes; p: the place the last
\* one ends at
RECURSIVE Extend(_, _, _, _, _, _)
Extend(T, ns, P, z, chain, p) ==
  IF p >= z THEN {chain}
  ELSE LET here == IdOf(T.ids, P[p])
           next == {<<i, q>> \in (DOMAIN T.I) \X {p, p + 1} :
                      q <= Len(P) /\ IdOf(T.ids, P[q]) = here /\ ns[i][1] = P[q] /\ Along(ns[i], 1, P, q)} IN
       UNION {Extend(T, ns, P, z, Append(chain, x[1]), x[2] + Len(ns[x[1]]) - 1) : x \in next}
Chains(T, c) ==
  LET ks == RoutesOf(T, c)
      P == TLCEval(Places(T, ks))
      a == StartAt(T, c)
      z == EndAt(T, c)
      ns == T.ns
      first == {<<i, t>> \in UNION {{i} \X (DOMAIN ns[i]) : i \in {j \in DOMAIN T.I : ks[1] \in Rng(T.I[j][1])}} : ns[i][t] = P[a] /\ Along(ns[i], t, P, a)} IN
  UNION {Extend(T, ns, P, z, <<x[1]>>, a + Len(ns[x[1]]) - x[2]) : x \in first}

\* the first interlocking route can be told from the first station routes alone: only one
\* passes the first stop, or only one of those that begin on its station route keeps to the drive
Evident(T, c) ==
  LET ks == RoutesOf(T, c)
      h == IdOf(T.ids, <<ks[1], StartAt(T, c) - 1>>)
      P == TLCEval(Places(T, ks))
      on == {i \in DOMAIN T.I : ks[1] \in Rng(T.I[i][1]) /\ \E t \in DOMAIN T.ns[i] : IdOf(T.ids, T.ns[i][t]) = h}
      from == {i \in on : T.I[i][1][1] = ks[1] /\ \E t \in DOMAIN T.ns[i] : T.ns[i][t] = P[StartAt(T, c)] /\ Along(T.ns[i], t, P, StartAt(T, c))} IN
  Cardinality(on) = 1 \/ Cardinality(from) = 1

\* judging what the library made of it: t.path (route numbers from 1), t.walk (<<node id, skipped, point>>)
PathFaults(T, c, t) ==
  LET ks == RoutesOf(T, c)
      P == TLCEval(Places(T, ks))
      a == StartAt(T, c)
      z == EndAt(T, c)
      ids(s) == [i \in DOMAIN s |-> IdOf(T.ids, s[i])]
      want == TLCEval(Squeeze(ids(SubSeq(P, a, z)), <<>>))
      driven == TLCEval(Squeeze(ids(FoldSeq(LAMBDA i, acc : acc \o T.ns[i], <<>>, t.path)), <<>>))
      got == [i \in DOMAIN t.walk |-> t.walk[i][1]]
      pts == TLCEval(SelectSeq([j \in DOMAIN c.pts |-> j], LAMBDA j : IsStop(c.pts[j]) \/ Passing(c.pts[j])))
      spot(j) == LET k == ks[pts[j]] IN
                 IdOf(T.ids, <<k, IF IsStop(c.pts[pts[j]]) THEN HaltOf(T, k, c.freight) ELSE PointOf(T, k)>>)
      marked == SelectSeq([i \in DOMAIN t.walk |-> i], LAMBDA i : t.walk[i][3] >= 0) IN
  {<<"not joined", i>> : i \in {j \in 1..(Len(t.path) - 1) : EndId(T.ids, T.I[t.path[j]]) # StartId(T.ids, T.I[t.path[j + 1]])}}
  \cup (IF got = want THEN {} ELSE {<<"does not drive along its station routes", Len(got), Len(want)>>})
  \cup (IF \E i \in DOMAIN driven : i + Len(want) - 1 <= Len(driven) /\ SubSeq(driven, i, i + Len(want) - 1) = want
        THEN {} ELSE {<<"interlocking routes do not contain the drive">>})
  \cup (IF Len(marked) = Len(pts) /\ \A j \in DOMAIN marked : t.walk[marked[j]][3] = j - 1 /\ t.walk[marked[j]][1] = spot(j)
        THEN {} ELSE {<<"planned stops and points", [j \in DOMAIN marked |-> t.walk[marked[j]]], [j \in DOMAIN pts |-> spot(j)]>>})
  \cup (IF t.length = DistanceOf(T, c) THEN {} ELSE {<<"length of the path", DistanceOf(T, c)>>})
  \cup (IF t.start = spot(1) THEN {} ELSE {<<"starts at", spot(1)>>})
  \cup (IF <<t.firstsr, t.lastsr>> = <<ks[1], ks[Len(ks)]>> THEN {} ELSE {<<"first and last station route">>})

-----------------------------------------------------------------------------
Named(ev, n) == {ev.elements[i].cts[j] : <<i, j>> \in {<<a, b>> \in UNION {{x} \X (DOMAIN ev.elements[x].cts) : x \in DOMAIN ev.elements} : ev.elements[a].cts[b].number = n}}
ReadFaults(T, ev) ==
  LET el(n) == CHOOSE e \in Rng(ev.elements) : \E c \in Rng(e.cts) : c.number = n
      released(n) == el(n).status = "freig" /\ \A c \in Rng(el(n).cts) : Supported(T, ev.stock, c)
      known(n) == Named(ev, n) # {}
      numbers == [i \in DOMAIN ev.got |-> ev.got[i].number]
      loaded(n) == \E i \in DOMAIN numbers : numbers[i] = n IN
  {<<"unknown train", n>> : n \in {m \in Rng(numbers) : ~known(m)}}
  \cup {<<"twice", n>> : n \in {m \in Rng(numbers) : Cardinality({i \in DOMAIN numbers : numbers[i] = m}) > 1}}
  \cup {<<"not to be taken over", n>> : n \in {m \in Rng(numbers) : known(m) /\ ~released(m)}}
  \cup {<<"says", x>> : x \in {<<TrainRecord(T, ev.stock, CHOOSE c \in Named(ev, y.number) : TRUE), y.number>> :
                             y \in {w \in Rng(ev.got) : known(w.number) /\ released(w.number)
                                      /\ w # TrainRecord(T, ev.stock, CHOOSE c \in Named(ev, w.number) : TRUE)}}}
  \* the trains of one train element come and go together, those of different ones do not
  \cup {<<"torn apart", i>> : i \in {j \in DOMAIN ev.elements :
          (\E c \in Rng(ev.elements[j].cts) : loaded(c.number)) /\ ~(\A c \in Rng(ev.elements[j].cts) : loaded(c.number))}}
  \* a train is left out only for a reason
  \cup {<<"left out", i>> : i \in {j \in DOMAIN ev.elements :
          LET e == ev.elements[j] IN
          /\ e.status = "freig" /\ ~(\E c \in Rng(e.cts) : loaded(c.number))
          /\ \A c \in Rng(e.cts) : Supported(T, ev.stock, c) /\ Continuous(T, RoutesOf(T, c)) /\ Cardinality(Chains(T, c)) = 1 /\ Evident(T, c)}}
  \cup (IF ev.got = <<>> THEN {} ELSE
        LET cs == {CHOOSE c \in Named(ev, n) : TRUE : n \in {m \in Rng(numbers) : known(m)}} IN
        IF cs # {} /\ ev.span # Span(cs) THEN {<<"span", Span(cs)>>} ELSE {})

ApplyTT(op, ev, T) ==
  CASE op = "names" -> {[res |-> <<"ok">>, st |-> T @@ [I |-> ev.irs, ids |-> ev.ids, ns |-> TLCEval([i \in DOMAIN ev.irs |-> NodesOf(T, ev.irs[i])])]]}
    [] op = "version" -> Judge(ev, <<"ok", IF ev.same THEN "read" ELSE "refused">>, T)
    [] op = "numbered" -> Judge(ev, [i \in 1..ev.n |-> i - 1], T)   \* trains are numbered one after the other
    [] op = "read" -> Judge(ev, Verdict(ReadFaults(T, ev)), T)
    [] op = "paths" -> Judge(ev, Verdict(UNION {{<<ev.trains[i].c.number, f>> : f \in PathFaults(T, ev.trains[i].c, ev.trains[i].t)} : i \in DOMAIN ev.trains}), T)
    [] op = "chains" -> Judge(ev, [i \in DOMAIN ev.trains |-> Cardinality(Chains(T, ev.trains[i].c))], T)
TTOps == {"names", "version", "read", "paths", "chains", "numbered"}

=============================================================================
