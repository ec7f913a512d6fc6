-------------------------------- MODULE Runs --------------------------------
(* Runs of trains (P22, P23): which speed is allowed where along the drive of *)
(* a train, the intervals this cuts the drive into, and the times at which    *)
(* the train passes its nodes.                                                *)
(* Distances in mm, speeds in mm/s, limits as the plan gives them in m/h.     *)
EXTENDS Timetable
M == INSTANCE Motion

Near(a, b, tol) == Abs(a - b) <= tol
Mms(l) == (l * 5 + 9) \div 18
DefaultLimit == 160000
BorderKm(T, e) == (CHOOSE n \in PortNodes(T.P) : n.main = e).km
Ways(T) == [k \in DOMAIN T.R |->
  LET r == T.R[k]
      km(x, e) == T.kms[x][CHOOSE i \in DOMAIN T.walk[x] : T.walk[x][i] = e] IN
  [i \in DOMAIN r.path |-> IF i = 1 THEN 0 ELSE Abs(km(r.on[i], r.path[i]) - km(r.on[i], r.path[i - 1]))]]

Works(v, effects) == v > 0 /\ effects \in {"all", "conventional"}
None == [here |-> 0, sig |-> 0]
Put(x, l) == IF ~Works(l[2], l[5]) THEN x ELSE IF l[3] = "here" THEN [x EXCEPT !.here = Mms(l[2])] ELSE [x EXCEPT !.sig = Mms(l[2])]
OwnLimits(P) == [e \in {l[1] : l \in Rng(P.limits)} |-> CHOOSE l \in Rng(P.limits) : l[1] = e]

\* the nodes of a train's drive: [id, e(lement), d(istance), kind, omit, sp (planned point, -1), own/extra limits]
Drive(T, c) ==
  LET ks == RoutesOf(T, c)
      P == TLCEval(Places(T, ks))
      a == StartAt(T, c)
      z == EndAt(T, c)
      N == TLCEval(SubSeq(P, a, z))
      gap(i) == IF i = 1 THEN 0
                ELSE IF N[i][1] = N[i - 1][1] /\ N[i][2] = N[i - 1][2] + 1 THEN T.way[N[i][1]][N[i][2] + 1]
                ELSE Abs(BorderKm(T, T.R[N[i][1]].path[1]) - BorderKm(T, T.R[N[i - 1][1]].path[Size(T, N[i - 1][1])]))
      ds == TLCEval(FoldSeq(LAMBDA i, acc : Append(acc, (IF i = 1 THEN 0 ELSE acc[i - 1]) + gap(i)), <<>>, [i \in DOMAIN N |-> i]))
      \* which planned point lies at which place: the routes of the drive in order
      firsts == TLCEval(FoldSeq(LAMBDA k, acc : Append(acc, acc[Len(acc)] + Size(T, k)), <<1>>, ks))
      pts == TLCEval(SelectSeq([j \in DOMAIN c.pts |-> j], LAMBDA j : IsStop(c.pts[j]) \/ Passing(c.pts[j])))
      place(j) == firsts[pts[j]] + (IF IsStop(c.pts[pts[j]]) THEN HaltOf(T, ks[pts[j]], c.freight) ELSE PointOf(T, ks[pts[j]])) - a + 1
      spots == TLCEval([j \in DOMAIN pts |-> place(j)]) IN
  [i \in DOMAIN N |->
     LET k == N[i][1]
         e == T.R[k].path[N[i][2] + 1]
         kind == IF e \in DOMAIN T.kind THEN T.kind[e] ELSE "meta"
         here == {j \in DOMAIN pts : spots[j] = i}
         sp == IF here = {} THEN 0 - 1 ELSE (CHOOSE j \in here : TRUE) - 1
         extra == SelectSeq(T.P.routes[k].spl, LAMBDA l : l[1] = e)
         own == IF e \in DOMAIN T.lim THEN Put(None, T.lim[e]) ELSE None IN
     [ id |-> IdOf(T.ids, N[i]), e |-> e, d |-> ds[i], kind |-> kind, sp |-> sp,
       stop |-> sp >= 0 /\ IsStop(c.pts[pts[sp + 1]]),
       omit |-> (\E j \in DOMAIN T.R[k].omit : T.R[k].omit[j] = N[i][2]) \/ (kind = "hlt" /\ sp < 0),
       lim |-> IF extra = <<>> THEN own ELSE Put(own, extra[1]) ]]

-----------------------------------------------------------------------------
(* the speed allowed where the drive begins: the nearest limit behind it *)
RECURSIVE Behind(_, _, _, _)
Behind(T, x, i, fuel) ==   \* position i of walk x and what lies before it
  LET e == T.walk[x][i]
      l == IF e \in DOMAIN T.lim THEN Put(None, T.lim[e]) ELSE None
      v == IF l.here > 0 THEN l.here ELSE l.sig IN
  IF v > 0 THEN v
  ELSE IF fuel = 0 THEN Mms(DefaultLimit)
  ELSE IF i > 1 THEN Behind(T, x, i - 1, fuel - 1)
  ELSE LET ys == {y \in DOMAIN T.walk : \E o \in OnFrom(T, y) : o[2] = x}
           ahead == {y \in ys : <<"next", x>> \in OnFrom(T, y)
                                 /\ ~(T.kinds[e] = "simple_switch" /\ Port[FarNode(T, y).tag][2] = "branch")}
           from == IF ahead # {} THEN ahead ELSE ys IN
       IF T.kinds[e] = "border" /\ T.partner[e] # 0
       THEN LET p == T.partner[e]
                y == CHOOSE w \in DOMAIN T.walk : T.walk[w][Len(T.walk[w])] = p IN
            Behind(T, y, Len(T.walk[y]), fuel - 1)
       ELSE IF from = {} THEN Mms(DefaultLimit)
       ELSE LET y == CHOOSE w \in from : TRUE IN Behind(T, y, Len(T.walk[y]), fuel - 1)

Initial(T, c) ==
  LET k == RouteOf(T, c.pts[1])
      r == T.R[k]
      x == r.on[1]
      start == HaltOf(T, k, c.freight)
      val(i) == LET e == r.path[i] IN LET l == IF e \in DOMAIN T.lim THEN Put(None, T.lim[e]) ELSE None IN
                IF l.here > 0 THEN l.here ELSE l.sig
      omitted(i) == \E j \in DOMAIN r.omit : r.omit[j] = i - 1
      on(Use(_)) == LET S == {i \in 1..start : val(i) > 0 /\ Use(i)} IN
                    IF S # {} THEN val(Max(S))
                    ELSE Behind(T, x, CHOOSE i \in DOMAIN T.walk[x] : T.walk[x][i] = r.path[1], 400) IN
  {on(LAMBDA i : TRUE), on(LAMBDA i : ~omitted(i))}     \* whether a limit the route omits counts is left open

-----------------------------------------------------------------------------
(* the borders of the intervals: main signals, planned stops and places where the *)
(* allowed speed changes; those at one distance are one. A limit announced by the *)
(* last main signal is in force from there on, up to the next change              *)
IsBorder(n) == n.kind \in {"ms", "hlt"} \/ n.lim.here > 0
Announce(v, st) ==
  IF st.gs = <<>> THEN {[st EXCEPT !.cur = v]}
  ELSE LET s == Max2(st.ms, 1)
           old == st.gs[s].right
           same(g) == st.gs[g].right = old
           upto(Stop(_)) == LET S == {g \in (s + 1)..Len(st.gs) : Stop(g)} IN IF S = {} THEN Len(st.gs) ELSE Min(S) - 1
           put(m) == [st EXCEPT !.gs = [g \in DOMAIN st.gs |-> IF g >= s /\ g <= m THEN [st.gs[g] EXCEPT !.right = v] ELSE st.gs[g]],
                                !.cur = IF m = Len(st.gs) THEN v ELSE @] IN
       \* a change to the same speed in between may count as one or not
       {put(upto(LAMBDA g : ~same(g))), put(upto(LAMBDA g : ~same(g) \/ st.gs[g].here))}
Pass(n, st0) ==
  LET cur == IF n.lim.here > 0 THEN n.lim.here ELSE st0.cur
      g == Len(st0.gs)
      join == g > 0 /\ st0.gs[g].d = n.d
      at == IF join THEN g ELSE g + 1
      sp == IF n.stop THEN n.sp ELSE 0 - 1 IN
  IF ~IsBorder(n) THEN [st0 EXCEPT !.cur = cur]
  ELSE [st0 EXCEPT !.cur = cur,
          !.gs = IF join THEN [@ EXCEPT ![g] = [@ EXCEPT !.right = cur, !.sp = IF sp >= 0 THEN sp ELSE @, !.here = @ \/ n.lim.here > 0]]
                 ELSE Append(@, [d |-> n.d, right |-> cur, sp |-> sp, here |-> n.lim.here > 0]),
          !.ms = IF n.kind = "ms" THEN at ELSE @]
Borders(N, init) ==
  FoldSeq(LAMBDA n, S : UNION {{Pass(n, t) : t \in IF n.lim.sig > 0 THEN Announce(n.lim.sig, s) ELSE {s}} : s \in S},
          {[gs |-> <<>>, cur |-> init, ms |-> 0]}, N)

\* which border each node's passing is noted with: the first at or after it
NotedAt(N, i) ==
  LET j == Min({m \in i..Len(N) : IsBorder(N[m])}) IN N[j].d

\* got: intervals <<distance, left, right, planned stop, noted nodes <<id, distance>>>>
ShapeFaults(N, types, gs, got) ==
  LET near == [i \in DOMAIN got |-> got[i][1]] IN
  IF Len(got) # Len(gs) THEN {<<"borders", [i \in DOMAIN gs |-> gs[i].d], near>>}
  ELSE {<<"at", i, gs[i].d>> : i \in {j \in DOMAIN gs : ~Near(gs[j].d, got[j][1], 1)}}
       \cup {<<"stop", i, gs[i].sp>> : i \in {j \in DOMAIN gs : gs[j].sp # got[j][4]}}
       \cup {<<"noted", i>> : i \in {j \in DOMAIN gs :
               LET idx == SelectSeq([m \in DOMAIN N |-> m], LAMBDA m : N[m].kind \in types /\ NotedAt(N, m) = gs[j].d) IN
               ~(/\ Len(idx) = Len(got[j][5])
                 /\ \A m \in DOMAIN idx : got[j][5][m][1] = N[idx[m]].id /\ Near(got[j][5][m][2], N[idx[m]].d, 1))}}
       \cup {<<"left", i>> : i \in {j \in 2..Len(got) : got[j][2] # got[j - 1][3]}}
\* the allowed speed, lowered only where braking would not fit, and no further than needed
SpeedFaults(top, gs, got) ==
  LET way(j) == got[j][1] - got[j - 1][1]
      target(j) == IF got[j][4] >= 0 THEN 0 ELSE Min2(got[j][3], top)
      pace(j) == Min2(got[j][2], top)
      slack == 60
      brk(v, t) == IF v <= t THEN 0 ELSE M!BrakingWay(v, t) IN
  {<<"above the limit", j, gs[j].right>> : j \in {i \in DOMAIN gs : got[i][3] > gs[i].right + 1}}
  \cup {<<"last limit", gs[Len(gs)].right>> : j \in {i \in {Len(gs)} : ~Near(got[i][3], gs[i].right, 1)}}
  \cup {<<"cannot brake in time", j>> : j \in {i \in 2..Len(gs) : brk(pace(i), target(i)) > way(i) + slack}}
  \cup {<<"lowered for nothing", j, gs[j - 1].right>> : j \in {i \in 2..Len(gs) :
          /\ got[i][2] < gs[i - 1].right - 1
          /\ LET v == got[i][2] + 1002 IN
             v <= top /\ brk(Min2(v, top), target(i)) < way(i) - slack}}
IntervalFaults(T, x) ==
  LET N == TLCEval(SelectSeq(Drive(T, x.c), LAMBDA n : ~n.omit))
      types == Rng(x.types)
      top == M!MmPerSec(M!TopOf(x.phys))
      all == TLCEval(UNION {Borders(N, v) : v \in Initial(T, x.c)})
      faults(b) == LET s == ShapeFaults(N, types, b.gs, x.got) IN IF s = {} THEN SpeedFaults(top, b.gs, x.got) ELSE s IN
  IF ~x.ok THEN {<<"refused">>}
  ELSE IF \E b \in all : faults(b) = {} THEN {} ELSE faults(CHOOSE b \in all : TRUE)

-----------------------------------------------------------------------------
(* driving through the intervals: gain speed until the allowed speed is reached, hold *)
(* it, and brake to the speed allowed next, half a second at a time. Times in ms,     *)
(* speeds in hundredths of mm/s                                                       *)
Gain(tr, u) ==
  LET v == u \div 100
      pulls == M!PullsOf(tr, v)
      f == (IF pulls = {} THEN 0 ELSE Max(pulls)) - M!DragOf(tr, v)
      D == (tr.weight \div 100) * 106
      n == f * 500 IN
  (n \div D) * 100 + ((n % D) * 100) \div D
\* <<distance, speed>> every half second
RECURSIVE Speeding(_, _, _, _)
Speeding(tr, goal, far, acc) ==
  LET a == acc[Len(acc)] IN
  IF a[2] >= goal * 100 \/ a[1] >= far THEN acc
  ELSE LET u == a[2] + Gain(tr, a[2]) IN Speeding(tr, goal, far, Append(acc, <<a[1] + (a[2] + u) \div 400, u>>))
Speedup(tr, v, goal, far) ==
  LET s == Speeding(tr, goal, far, <<<<0, v * 100>>>>)
      n == Len(s) IN
  IF s[n][1] <= far THEN s
  ELSE IF n = 2 THEN SubSeq(s, 1, 1) ELSE [SubSeq(s, 1, n - 1) EXCEPT ![n - 1] = <<far, @[2]>>]
Half == 500
BrakeTime(v, t) == IF v <= t THEN 0 ELSE M!Rungs(v, t) * Half
BrakeWay(v, t) == IF v <= t THEN 0 ELSE M!BrakingWay(v, t)

\* one interval of length far, entered with speed v: [acc, held: <<speed, distance>>, goal: speed at its end]
RECURSIVE Lower(_, _, _, _)
Lower(s, i, t, far) ==   \* the last step of an acceleration after which braking still fits
  LET v == s[i][2] \div 100 IN
  IF i = 1 \/ v <= t \/ BrakeWay(v, t) + s[i][1] <= far THEN i ELSE Lower(s, i - 1, t, far)
Through(tr, v, limit, target, far) ==
  LET top == Min2(limit, M!MmPerSec(M!TopOf(tr)))
      all == IF v < top THEN Speedup(tr, v, top, far) ELSE <<<<0, v * 100>>>>
      n == Len(all)
      peak == Min2(all[n][2] \div 100, Max2(top, v))
      m == IF n > 1 /\ peak > target /\ all[n][1] + BrakeWay(peak, target) >= far THEN Lower(all, n - 1, target, far) ELSE n
      hold == IF m = n THEN peak ELSE all[m][2] \div 100
      left == Max2(0, far - all[m][1] - BrakeWay(hold, target)) IN
  [acc |-> SubSeq(all, 1, m), hold |-> hold, coast |-> left, far |-> far, target |-> target,
   exit |-> IF hold > target THEN target ELSE hold]
CoastTime(v, d) == IF d = 0 \/ v = 0 THEN 0 ELSE ((2 * d + v - 1) \div v) * Half
TimeOf(x) == (Len(x.acc) - 1) * Half + CoastTime(x.hold, x.coast) + BrakeTime(x.hold, x.target)
\* when a point of the interval is passed
TimeAt(x, d) ==
  LET n == Len(x.acc)
      a == x.acc[n][1] IN
  IF d <= a THEN (Min({i \in 1..n : x.acc[i][1] >= d}) - 1) * Half
  ELSE IF d <= a + x.coast THEN (n - 1) * Half + CoastTime(x.hold, d - a)
  ELSE LET b == d - a - x.coast
           S == {j \in 1..Max2(M!Rungs(x.hold, x.target), 1) : BrakeWay(x.hold, Max2(x.hold - 350 * j, x.target)) >= b} IN
       (n - 1) * Half + CoastTime(x.hold, x.coast) + (IF S = {} THEN M!Rungs(x.hold, x.target) ELSE Min(S)) * Half

(* judging a run: x.iv the intervals, x.got <<times, stops>> with times <<node id, arrival, departure>> *)
Slack(steps, run) == 1 + steps \div 2 + run \div 500
RECURSIVE Journey(_, _, _, _)
\* for each interval after the first: [far, x (how it is driven)], speeds handed on
Journey(tr, iv, i, v) ==
  IF i > Len(iv) THEN <<>>
  ELSE LET target == IF iv[i][4] >= 0 THEN 0 ELSE Min2(iv[i][3], M!MmPerSec(M!TopOf(tr)))
           x == TLCEval(Through(tr, v, iv[i][2], target, iv[i][1] - iv[i - 1][1])) IN
       <<x>> \o Journey(tr, iv, i + 1, x.exit)

RunFaults(T, x) ==
  LET N == TLCEval(SelectSeq(Drive(T, x.c), LAMBDA n : ~n.omit /\ n.kind \in Rng(x.types)))
      pts == SelectSeq([j \in DOMAIN x.c.pts |-> j], LAMBDA j : IsStop(x.c.pts[j]) \/ Passing(x.c.pts[j]))
      times == x.got[1]
      J == TLCEval(Journey(x.phys, x.iv, 2, 0))
      plan(sp) == x.c.pts[pts[sp + 1]]
      \* the nodes noted in each interval, by index into the times
      upto == TLCEval(FoldSeq(LAMBDA v, acc : Append(acc, acc[Len(acc)] + Len(v[5])), <<0>>, x.iv))
      stopAt(i) == LET S == {j \in (upto[i] + 1)..upto[i + 1] : Near(x.iv[i][5][j - upto[i]][2], x.iv[i][1], 0)} IN S
      start == Clock(x.c.pts[1][4])
      \* arrival and departure at the end of each interval, as far as the train tells: <<arrival, departure, tolerance>>
      legs == TLCEval(FoldSeq(LAMBDA i, acc :
                LET p == acc[Len(acc)]
                    ms == p[4] + TimeOf(J[i - 1])
                    arr == start + p[5] + ms \div 1000
                    seen == stopAt(i)
                    told == IF seen = {} THEN arr ELSE times[CHOOSE j \in seen : TRUE][2]
                    c == plan(x.iv[i][4])
                    dep == IF x.iv[i][4] >= 0 THEN Max2(Clock(c[4]), (IF seen = {} THEN arr ELSE told) + Dwell(c[6])) ELSE arr IN
                Append(acc, <<arr, dep, Slack(p[6] + 1, ms \div 1000), IF x.iv[i][4] >= 0 THEN 0 ELSE ms,
                              IF x.iv[i][4] >= 0 THEN dep - start ELSE p[5], IF x.iv[i][4] >= 0 /\ seen # {} THEN 0 ELSE p[6] + 1>>),
              <<<<start, start, 0, 0, 0, 0>>>>, [i \in 1..(Len(x.iv) - 1) |-> i + 1]))
      faultsIn(i) ==      \* interval i >= 2
        LET from == upto[i] + 1
            p == legs[i - 1] IN
        {<<"time at", x.iv[i][5][j - upto[i]], start + p[5] + (p[4] + TimeAt(J[i - 1], x.iv[i][5][j - upto[i]][2] - x.iv[i - 1][1])) \div 1000>> :
           j \in {m \in from..upto[i + 1] \ stopAt(i) :
             LET ms == p[4] + TimeAt(J[i - 1], x.iv[i][5][m - upto[i]][2] - x.iv[i - 1][1]) IN
             ~(Near(times[m][2], start + p[5] + ms \div 1000, Slack(p[6] + 1, ms \div 1000)) /\ times[m][2] = times[m][3])}}
        \cup {<<"arrival at", i, legs[i][1]>> : j \in {m \in stopAt(i) : ~Near(times[m][2], legs[i][1], legs[i][3])}}
        \cup {<<"departure at", i, legs[i][2]>> : j \in {m \in stopAt(i) :
                IF x.iv[i][4] >= 0 THEN LET c == plan(x.iv[i][4]) IN
                  ~(IF c[4] = <<>> /\ i = Len(x.iv) THEN times[m][3] = 0 - 1      \* the drive ends here
                    ELSE times[m][3] = Max2(Clock(c[4]), times[m][2] + Dwell(c[6])))
                ELSE times[m][3] # times[m][2]}} IN
  IF ~x.ok THEN {<<"refused">>}
  ELSE IF [i \in DOMAIN times |-> times[i][1]] # [i \in DOMAIN N |-> N[i].e] THEN {<<"points", [i \in DOMAIN N |-> N[i].e]>>}
  ELSE (IF x.got[2] = Positions([i \in DOMAIN N |-> N[i].kind], LAMBDA k : k = "hlt") THEN {} ELSE {<<"stops">>})
       \cup {<<"start", i>> : i \in {j \in 1..upto[2] : times[j][3] # start}}
       \cup {<<"leaves before it arrives", i>> : i \in {j \in (upto[2] + 1)..Len(times) : times[j][3] < times[j][2] /\ times[j][3] # 0 - 1}}
       \cup {<<"back in time", i>> : i \in {j \in 1..(Len(times) - 1) :
                N[j + 1].d > N[j].d /\ times[j + 1][2] < times[j][3]}}
       \cup UNION {faultsIn(i) : i \in 2..Len(x.iv)}

ApplyRuns(op, ev, T) ==
  CASE op = "ways" -> {[res |-> <<"ok">>, st |-> T @@ [way |-> TLCEval(Ways(T)), lim |-> OwnLimits(T.P)]]}
    [] op = "intervals" -> Judge(ev, Verdict(UNION {{<<ev.trains[i].c.number, f>> : f \in IntervalFaults(T, ev.trains[i])} : i \in DOMAIN ev.trains}), T)
    [] op = "runs" ->
         LET bad(x) == LET f == IntervalFaults(T, [c |-> x.c, phys |-> x.phys, types |-> x.types, got |-> x.iv, ok |-> x.ivok]) IN
                       IF f # {} THEN f ELSE RunFaults(T, x) IN
         Judge(ev, Verdict(UNION {{<<ev.trains[i].c.number, f>> : f \in bad(ev.trains[i])} : i \in DOMAIN ev.trains}), T)
RunOps == {"ways", "intervals", "runs"}
=============================================================================
