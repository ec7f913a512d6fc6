---------------------------- MODULE Routes ----------------------------
(* Station routes (P04 - P06): the path a declared route takes, and what the  *)
(* route says about its nodes.                                                *)
EXTENDS TrackPlan

SwitchLike(T, e) == T.kinds[e] = "simple_switch" \/ (T.kinds[e] = "cross" /\ \E p \in {"sl", "el"} : <<e, p>> \in T.arcs)

\* where a route declared to start at element e begins: <<walk, position>>
Begin(T, e) ==
  IF e \in DOMAIN T.kinds THEN <<T.at[<<e, "a">>], 1>>
  ELSE CHOOSE b \in UNION {{<<x, i>> : i \in DOMAIN T.walk[x]} : x \in DOMAIN T.walk} : T.walk[b[1]][b[2]] = e

\* from position i of walk x to the element named goal, deciding at switches by the
\* course: [path |-> the elements, len |-> the distance, on |-> the walk each of them is
\* reached on, cum |-> the distance to each of them]; an empty path if there is none
RECURSIVE Follow(_, _, _, _, _, _)
Follow(T, x, i, goal, course, acc) ==
  LET w == T.walk[x]
      hits == {j \in i..Len(w) : w[j] = goal}
      upto == IF hits = {} THEN Len(w) ELSE CHOOSE j \in hits : TRUE
      first == IF acc.path = <<>> THEN i ELSE i + 1       \* the element shared with the section before
      here == [path |-> acc.path \o SubSeq(w, first, upto), len |-> acc.len + Abs(T.kms[x][upto] - T.kms[x][i]),
               on |-> acc.on \o [j \in 1..(upto - first + 1) |-> x],
               cum |-> acc.cum \o [j \in 1..(upto - first + 1) |-> acc.len + Abs(T.kms[x][first + j - 1] - T.kms[x][i])]] IN
  IF hits # {} THEN here
  ELSE LET far == w[Len(w)]
           on == OnFrom(T, x)
           sw == SwitchLike(T, far)
           branching == \E o \in on : o[1] = "branch"
           want == IF sw /\ branching /\ course # <<>> /\ ~course[1] THEN "branch" ELSE "next"
           rest == IF sw /\ course # <<>> THEN Tail(course) ELSE course IN
       IF on = {} \/ Len(here.path) > 2000 THEN [path |-> <<>>, len |-> 0, on |-> <<>>, cum |-> <<>>]
       ELSE Follow(T, (CHOOSE o \in on : o[1] = want)[2], 1, goal, rest, here)

PathOf(T, r) == LET b == Begin(T, r.start) IN Follow(T, b[1], b[2], r.end, r.course, [path |-> <<>>, len |-> 0, on |-> <<>>, cum |-> <<>>])

\* kinds of the track elements
MidKinds(P) == LET A == UNION {Rng(P.secs[s].mids) : s \in DOMAIN P.secs} IN
               [e \in {m[1] : m \in A} |-> KindOf((CHOOSE m \in A : m[1] = e)[2])]
MidPlaces(P) == LET A == UNION {{<<m[1], P.secs[s].line, m[3]>> : m \in Rng(P.secs[s].mids)} : s \in DOMAIN P.secs} IN
               [e \in {m[1] : m \in A} |-> LET m == CHOOSE a \in A : a[1] = e IN <<m[2], m[3]>>]

\* indices count from 0, as the library's do
Positions(path, Test(_)) == [k \in 1..Cardinality({i \in DOMAIN path : Test(path[i])}) |->
   LET S == {i \in DOMAIN path : Test(path[i])} IN (CHOOSE i \in S : Cardinality({j \in S : j < i}) = k - 1) - 1]
IndexOf(path, e) == IF \E i \in DOMAIN path : path[i] = e THEN (CHOOSE i \in DOMAIN path : path[i] = e) - 1 ELSE 0 - 1

\* does the line carry conventional signals at a chainage
Signalled(T, place) ==
  LET segs == (CHOOSE l \in Rng(T.P.lines) : l[1] = place[1])[2]
      S == {i \in DOMAIN segs : segs[i][1] <= place[2]} IN
  segs[Max(S)][3]

DeriveRoutes(P) ==
  LET T == Derive(P)
      mk == MidKinds(P)
      mp == MidPlaces(P)
      kind(e) == IF e \in DOMAIN T.kinds THEN T.kinds[e] ELSE IF e \in DOMAIN mk THEN mk[e] ELSE "meta" IN
  T @@ [mk |-> mk, mp |-> mp, kind |-> [e \in (DOMAIN T.kinds) \cup (DOMAIN mk) |-> kind(e)]] @@
  [R |-> [k \in DOMAIN P.routes |->
     LET r == P.routes[k]
         pl == PathOf(T, r)
         path == pl.path
         omit == Rng(r.omit)
         es == Positions(path, LAMBDA e : kind(e) = "etcs_start") IN
     [ path |-> path, len |-> pl.len, on |-> pl.on, cum |-> pl.cum, start |-> r.start, end |-> r.end, st |-> r.st,
       ms |-> Positions(path, LAMBDA e : kind(e) = "ms" /\ e \notin omit),
       es |-> es, ee |-> Positions(path, LAMBDA e : kind(e) = "etcs_end"),
       omit |-> Positions(path, LAMBDA e : e \in omit),
       etcs |-> es # <<>> /\ ~Signalled(T, mp[path[es[Len(es)] + 1]]) ]]]

OwnBorder(T, e) == e \in DOMAIN T.partner /\ T.partner[e] # 0
StationOfBorder(T, e) == LET n == CHOOSE x \in DOMAIN T.at : x[1] = e IN T.P.secs[T.at[n][1]].st

Boundary(T, e) == e \in DOMAIN T.kinds /\ T.kinds[e] \in {"border", "track_end"}
Facts(T, k) ==
  LET r == T.P.routes[k]
      d == T.R[k] IN
  [ name |-> r.name, st |-> r.st,
    from |-> IF OwnBorder(T, r.start) THEN StationOfBorder(T, T.partner[r.start]) ELSE 0,
    to |-> IF OwnBorder(T, r.end) THEN StationOfBorder(T, T.partner[r.end]) ELSE 0,
    start |-> r.start, end |-> r.end, nodes |-> d.path, size |-> Len(d.path),
    ms |-> d.ms, es |-> d.es, ee |-> d.ee, omit |-> d.omit,
    pass |-> IndexOf(d.path, r.pass), freight |-> IndexOf(d.path, r.freight), rtcp |-> IndexOf(d.path, r.rtcp),
    passn |-> r.pass, rtcpn |-> r.rtcp,
    attr |-> r.attrs, elec |-> \E i \in DOMAIN r.attrs : r.attrs[i] = 1,
    kind |-> CASE Boundary(T, r.start) /\ Boundary(T, r.end) -> "through"
               [] Boundary(T, r.start) /\ ~Boundary(T, r.end) -> "in"
               [] ~Boundary(T, r.start) /\ Boundary(T, r.end) -> "out"
               [] OTHER -> "contained",
    etcs |-> d.etcs, ispath |-> TRUE, len |-> d.len ]

\* the extra speed limits, in order of the path; at one node in any order
LimitFaults(T, k, got) ==
  LET want == T.P.routes[k].spl
      path == T.R[k].path
      count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x}) IN
  IF Len(got) # Len(want) THEN {<<"number of limits", k>>}
  ELSE {<<"limit", k, got[i]>> : i \in {j \in DOMAIN got : count(got, got[j]) # count(want, got[j])}}
       \cup {<<"order", k, got[i]>> : i \in {j \in 1..(Len(got) - 1) : IndexOf(path, got[j][1]) > IndexOf(path, got[j + 1][1])}}

\* per station: the routes by name and by the element they start at
ByName(T, s) == {<<T.P.routes[k].name, k>> : k \in {j \in DOMAIN T.P.routes : T.P.routes[j].st = s}}
ByStart(T, s) == {<<T.P.routes[k].start, k>> : k \in {j \in DOMAIN T.P.routes : T.P.routes[j].st = s}}

-----------------------------------------------------------------------------
(* P05: what an iteration says of the nodes with index i (from 0) *)
MayLimit(T, k, i) ==
  LET e == T.R[k].path[i + 1]
      omitted == \E j \in DOMAIN T.R[k].omit : T.R[k].omit[j] = i
      here == {l \in Rng(T.P.routes[k].spl) : l[1] = e} IN
  IF omitted \/ here = {} THEN {<<>>} ELSE {<<l>> : l \in here}
Expect(T, k, i) == <<T.R[k].path[i + 1], \E j \in DOMAIN T.R[k].omit : T.R[k].omit[j] = i>>
\* got: the nodes reported for the part [a, b)
PartFaults(T, k, a, b, got) ==
  LET n == Max2(b - a, 0) IN
  IF Len(got) # n THEN {<<"length", k, a, b, n>>}
  ELSE {<<"node", k, a + j - 1, Expect(T, k, a + j - 1)>> : j \in {i \in 1..n : <<got[i][1], got[i][2]>> # Expect(T, k, a + i - 1)}}
       \cup {<<"limit", k, a + j - 1, MayLimit(T, k, a + j - 1)>> : j \in {i \in 1..n : got[i][3] \notin MayLimit(T, k, a + i - 1)}}

-----------------------------------------------------------------------------
(* P06 *)
Succ(T) == {<<j, k>> \in (DOMAIN T.P.routes) \X (DOMAIN T.P.routes) :
              LET e == T.P.routes[j].end IN OwnBorder(T, e) /\ T.P.routes[k].start = T.partner[e]}

Verdict(F) == IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>
=============================================================================
