------------------------------- MODULE Layout -------------------------------
(* The drawing of an infrastructure on the map (P40).  The description gives  *)
(* every element that joins tracks a place in its station's picture; a file   *)
(* gives some of the stations their coordinates.                              *)
(*                                                                            *)
(* State D: the track of the plan (TrackPlan), with                           *)
(*   xy    <<element, x, y>>: places in the picture, 1/1000 of its unit,      *)
(*         which stands for ten metres: one is one centimetre; y points down  *)
(*   gps   <<station, longitude, latitude>>: given coordinates, 1/10^6 degree *)
(*   near  station -> {neighbouring stations}                                 *)
EXTENDS TrackPlan

Stations(D) == 1..Len(D.T.P.names)
StationOf(P, e) == P.secs[CHOOSE s \in Tracks(P) : e \in {P.secs[s].lo.main, P.secs[s].hi.main}].st
\* borders of a station that lead to another one of the plan: {<<border, station>>}
BordersOf(T) == {<<StationOf(T.P, e), e, StationOf(T.P, T.partner[e])>> : e \in {b \in DOMAIN T.partner : T.partner[b] # 0}}
Known(ev) == [P |-> ev.plan, T |-> Derive(ev.plan)]
Start(ev) ==
  LET T == Derive(ev.plan)
      B == BordersOf(T) IN
  [T |-> T, xy |-> [e \in {x[1] : x \in Rng(ev.xy)} |-> LET x == CHOOSE y \in Rng(ev.xy) : y[1] = e IN <<x[2], x[3]>>],
   gps |-> [s \in {x[1] : x \in Rng(ev.gps)} |-> LET x == CHOOSE y \in Rng(ev.gps) : y[1] = s IN <<x[2], x[3]>>],
   borders |-> B,
   near |-> [s \in 1..Len(ev.plan.names) |-> {b[3] : b \in {c \in B : c[1] = s}}]]

-----------------------------------------------------------------------------
(* stations *)
\* stations with coordinates reached from s over stations without: {<<station, steps>>}
RECURSIVE Reach(_, _, _, _)
Reach(D, front, seen, d) ==
  LET new == UNION {D.near[x] : x \in {y \in front : y \notin DOMAIN D.gps}} \ seen IN
  IF new = {} THEN {}
  ELSE {<<x, d>> : x \in new \cap DOMAIN D.gps} \cup Reach(D, new, seen \cup new, d + 1)
Around(D, s) == Reach(D, {s}, {s}, 1)
Coupling(D, s, n) == Cardinality({b \in D.borders : b[1] = s /\ b[3] = n})
\* the closer a neighbour, the more it counts; twice if joined by more than four tracks
Weight(D, s, far, x) == (far + 1 - x[2]) * (IF x[2] = 1 /\ Coupling(D, s, x[1]) > 4 THEN 2 ELSE 1)

\* is a = the mean of the coordinates k of the stations around, by weight
IsMean(D, s, A, k, a) ==
  LET far == Max({x[2] : x \in A})
      base == D.gps[(CHOOSE x \in A : TRUE)[1]][k]
      ws == [x \in A |-> Weight(D, s, far, x)]
      total == FoldFunction(+, 0, ws)
      sum == FoldFunction(+, 0, [x \in A |-> ws[x] * (D.gps[x[1]][k] - base)]) IN
  Abs((a - base) * total - sum) <= 2 * total
Close(a, b) == Abs(a[1] - b[1]) <= 2 /\ Abs(a[2] - b[2]) <= 2
StationOk(D, s, p) ==
  IF s \in DOMAIN D.gps THEN Close(p, D.gps[s])
  ELSE LET A == Around(D, s) IN
       CASE Cardinality(A) = 0 -> Close(p, <<8000000, 47000000>>)
         [] Cardinality(A) = 1 -> LET x == CHOOSE y \in A : TRUE IN Close(p, <<D.gps[x[1]][1] - 100000 * x[2], D.gps[x[1]][2]>>)
         [] OTHER -> IsMean(D, s, A, 1, p[1]) /\ IsMean(D, s, A, 2, p[2])
StationFaults(D, got) ==
  IF Len(got) # Len(D.T.P.names) THEN {<<"stations", Len(got)>>}
  ELSE {<<"station", s, got[s], IF s \in DOMAIN D.gps THEN <<"given", D.gps[s]>> ELSE <<"around", SetToSeq(Around(D, s))>> >> :
          s \in {x \in Stations(D) : ~StationOk(D, x, got[x])}}

-----------------------------------------------------------------------------
(* elements: <<element, cm east, cm north>> of their station *)
Sine == <<0, 872, 1736, 2588, 3420, 4226, 5000, 5736, 6428, 7071, 7660, 8192, 8660, 9063, 9397, 9659, 9848, 9962, 10000>>
Sin(k) == LET q == k % 72 IN            \* k: multiples of five degrees
  CASE q <= 18 -> Sine[q + 1] [] q <= 36 -> Sine[37 - q] [] q <= 54 -> 0 - Sine[q - 35] [] OTHER -> 0 - Sine[73 - q]
Cos(k) == Sin(k + 18)
\* v turned clockwise
Turn(v, k) == << (v[1] * Cos(k) + v[2] * Sin(k)) \div 10000, (v[2] * Cos(k) - v[1] * Sin(k)) \div 10000 >>
Near(a, b) == LET tol == 25 + (Abs(b[1]) + Abs(b[2])) \div 250 IN Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol

MainsOf(D, s) == UNION {{D.T.P.secs[i].lo.main, D.T.P.secs[i].hi.main} : i \in {j \in Tracks(D.T.P) : D.T.P.secs[j].st = s}}
MidsOf(D, s) == UNION {{m[1] : m \in Rng(D.T.P.secs[i].mids)} : i \in {j \in Tracks(D.T.P) : D.T.P.secs[j].st = s}}
\* the picture of a station is centred on the station
Picture(D, s) ==
  LET M == MainsOf(D, s)
      mid(k) == (Min({D.xy[e][k] : e \in M}) + Max({D.xy[e][k] : e \in M})) \div 2 IN
  [e \in M |-> << D.xy[e][1] - mid(1), mid(2) - D.xy[e][2] >>]

Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Coarse(a) == <<a[1] \div 16, a[2] \div 16>>
DotC(a, b) == a[1] * b[1] + a[2] * b[2]
CrossC(a, b) == a[1] * b[2] - a[2] * b[1]
Long(a) == Abs(a[1]) + Abs(a[2])
\* track elements of a section lie on the straight line between its ends, in
\* the order a train passes them, evenly spread
LineFaults(at, ends, ms) ==
  LET A == at[ends[1]]  B == at[ends[2]]
      ab == Coarse(Sub(B, A))
      p(i) == Coarse(Sub(at[ms[i]], A))
      off(i) == Abs(CrossC(ab, p(i))) > 4 * Long(ab) + 16
      step(i) == Sub(at[ms[i + 1]], at[ms[i]]) IN
  IF Long(Sub(B, A)) < 500
  THEN {<<"not at its ends", ms[i]>> : i \in {j \in DOMAIN ms : Long(Sub(at[ms[j]], A)) > Long(Sub(B, A)) + 60}}
  ELSE {<<"off the line", ms[i]>> : i \in {j \in DOMAIN ms : off(j)}}
       \cup {<<"beyond the ends", ms[i]>> : i \in {j \in DOMAIN ms : DotC(ab, p(j)) < 0 - 4 * Long(ab) - 16
                                                                  \/ DotC(ab, Sub(ab, p(j))) < 0 - 4 * Long(ab) - 16}}
       \cup {<<"out of order", ms[i], ms[i + 1]>> : i \in {j \in 1..(Len(ms) - 1) :
                Long(Sub(B, A)) > 200 * (Len(ms) + 4) /\ DotC(ab, Coarse(step(j))) <= 0}}
       \cup {<<"not even", ms[i], ms[i + 1]>> : i \in {j \in 1..(Len(ms) - 1) : Long(Sub(step(j), step(1))) > 60}}

ElementFaults(D, s, got) ==
  LET mids == MidsOf(D, s)
      pic == Picture(D, s)
      real == SelectSeq(got, LAMBDA x : x[1] > 0)
      at == [e \in {x[1] : x \in Rng(real)} |-> LET x == CHOOSE y \in Rng(real) : y[1] = e IN <<x[2], x[3]>>]
      lost == {x[1] : x \in {y \in Rng(got) : Abs(y[2]) > 1000000 \/ Abs(y[3]) > 1000000}} IN
  IF DOMAIN at # DOMAIN pic \cup mids \/ Len(real) # Cardinality(DOMAIN at)
  THEN {<<"elements", s, SetToSeq(DOMAIN at), SetToSeq(DOMAIN pic \cup mids)>>}
  ELSE IF lost # {} THEN {<<"nowhere near", s, SetToSeq(lost)>>}
  ELSE (IF \E k \in 0..71 : \A e \in DOMAIN pic : Near(at[e], Turn(pic[e], k)) THEN {}
        ELSE {<<"not the picture turned by any angle", s, [e \in {ToString(x) : x \in DOMAIN pic} |->
                 LET x == CHOOSE y \in DOMAIN pic : ToString(y) = e IN <<at[x], pic[x]>>]>>})
       \cup UNION {LineFaults(at, <<D.T.P.secs[i].lo.main, D.T.P.secs[i].hi.main>>,
                              SelectSeq(D.T.all[<<i, TRUE>>], LAMBDA e : e > 0 /\ e \notin DOMAIN pic)) :
                   i \in {j \in Tracks(D.T.P) : D.T.P.secs[j].st = s}}

\* a station is turned so that its borders look where they lead: with all its
\* neighbours far away, turning it further either way brings them no closer.
\* dirs: <<border, station, east, north (thousandths), km>>
Far == 45
TurnFaults(D, s, got, dirs) ==
  LET at(e) == LET x == CHOOSE y \in Rng(got) : y[1] = e IN <<x[2], x[3]>>
      n == Len(dirs)
      f(i) == (dirs[i][3] * at(dirs[i][1])[1] + dirs[i][4] * at(dirs[i][1])[2]) \div 1000
      g(i) == (dirs[i][3] * at(dirs[i][1])[2] - dirs[i][4] * at(dirs[i][1])[1]) \div 1000
      F == Sum([i \in 1..n |-> f(i)])
      G == Sum([i \in 1..n |-> g(i)])
      slack == Sum([i \in 1..n |-> Long(at(dirs[i][1]))]) \div 20 + 50 IN
  IF {<<s, d[1], d[2]>> : d \in Rng(dirs)} # {b \in D.borders : b[1] = s} \/ n # Cardinality(Rng(dirs)) THEN {<<"borders", s>>}
  ELSE IF n = 0 \/ \E i \in 1..n : dirs[i][5] < Far THEN {}
  ELSE IF F >= 0 - slack /\ Abs(G) <= F \div 22 + slack THEN {}
  ELSE {<<"not turned towards its neighbours", s, F, G, slack>>}

Verdict(F) == IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>
Init0 == <<>>
Apply(op, ev, D) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> Start(ev)]}
    [] op = "loads" -> Judge(ev, <<"ok">>, D)
    [] op = "stations" -> Judge(ev, Verdict(StationFaults(D, ev.got)), D)
    [] op = "elements" -> Judge(ev, Verdict(UNION {ElementFaults(D, s, ev.got[s]) : s \in Stations(D)}), D)
    [] op = "turned" -> Judge(ev, Verdict(UNION {TurnFaults(D, s, ev.got[s], ev.dirs[s]) : s \in Stations(D)}), D)
=============================================================================
