------------------------------- MODULE Motion -------------------------------
(* How trains move (P24): the forces of rolling stock as its description      *)
(* gives them, and the three ways of moving - gaining speed, losing it, and   *)
(* holding it - as sequences of <<time, distance, speed>> in ms, mm and mm/s, *)
(* one every half second.                                                     *)
(* A vehicle: weight (t), speed (km/h), res = three resistance factors,       *)
(* curve = <<from, to (km/h), three factors>>, factors in thousandths.        *)
(* A train: vs = its vehicles, weight (kg), len (mm), speed (km/h).           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

MoAbs(x) == IF x < 0 THEN 0 - x ELSE x
Close(a, b, tol) == MoAbs(a - b) <= tol
SumOf(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)

\* speeds: mm/s to hundredths of km/h
Hundredths(v) == (v * 36) \div 100
MmPerSec(kmh) == (kmh * 2500) \div 9
TopOf(tr) == Min({tr.speed} \cup {tr.vs[i].speed : i \in DOMAIN tr.vs})

\* newtons at speed V (hundredths of km/h): a factor in thousandths of kN is one in N
OnPiece(p, V) == p[3] + (p[4] * V) \div 100 + (p[5] * ((V * V) \div 10000))
Pulls(vh, V) == {OnPiece(vh.curve[i], V) : i \in {j \in DOMAIN vh.curve : vh.curve[j][1] * 100 - 2 <= V /\ V <= vh.curve[j][2] * 100 + 2}}
Drag(vh, V) ==
  (vh.res[1] * vh.weight * 981) \div 100000
  + (((vh.res[2] * vh.weight * 981) \div 100) * V) \div 100000
  + (vh.res[3] * 981 * ((V * V) \div 10000)) \div 100000
RECURSIVE PullSets(_, _)
PullSets(vs, V) == IF vs = <<>> THEN {0} ELSE {a + b : a \in Pulls(vs[1], V), b \in PullSets(Tail(vs), V)}
PullsOf(tr, v) == PullSets(tr.vs, Hundredths(v))
DragOf(tr, v) == SumOf([i \in DOMAIN tr.vs |-> Drag(tr.vs[i], Hundredths(v))])
Beyond(tr, v) == PullsOf(tr, v) = {}      \* faster than the curve of some vehicle goes

NearForce(a, b) == Close(a, b, 40 + MoAbs(b) \div 500)
ForcesOk(tr, v, got) ==
  /\ \E t \in PullsOf(tr, v) : NearForce(got[1], t)
  /\ NearForce(got[2], DragOf(tr, v))

-----------------------------------------------------------------------------
Step == 500           \* ms
Braking == 700        \* mm/s^2
Time(r) == r[1]
Way(r) == r[2]
Pace(r) == r[3]

\* the gain of speed in one step (mm/s), rotating masses counting six percent
Gains(tr, v) == {((t - DragOf(tr, v)) * 500) \div ((tr.weight \div 100) * 106) : t \in PullsOf(tr, v)}
GainOk(tr, v, dv) == \E g \in Gains(tr, v) : Close(dv, g, 3)
StepOk(tr, a, b) ==
  /\ Time(b) = Time(a) + Step
  /\ GainOk(tr, Pace(a), Pace(b) - Pace(a))
  /\ Close(Way(b) - Way(a), (Pace(a) + Pace(b)) \div 4, 2)

\* where one more step would lead
Reach(tr, a) == Way(a) + (2 * Pace(a) + Max(Gains(tr, Pace(a)))) \div 4

Begins(s, v0) == Len(s) >= 1 /\ s[1] = <<0, 0, v0>>

\* gaining speed until the target, the top speed or the end of the way is reached
AccelFaults(tr, v0, vt, far, s) ==
  LET n == Len(s)
      top == MmPerSec(TopOf(tr))
      goal == IF vt < top THEN vt ELSE top
      cut == Way(s[n]) = far /\ n > 1 /\ ~StepOk(tr, s[n - 1], s[n])     \* the last step was shortened to the way's end
      full == IF cut THEN n - 1 ELSE n IN
  IF ~Begins(s, v0) THEN {<<"begins">>}
  ELSE {<<"step", i>> : i \in {j \in 1..(full - 1) : ~StepOk(tr, s[j], s[j + 1])}}
       \cup {<<"went on after the goal", i>> : i \in {j \in 1..(n - 1) : Pace(s[j]) > goal + 1 \/ (Way(s[j]) > far + 1)}}
       \cup (IF Way(s[n]) > far + 1 THEN {<<"beyond the way", far>>} ELSE {})
       \cup (IF cut /\ ~(Time(s[n]) = Time(s[n - 1]) + Step /\ GainOk(tr, Pace(s[n - 1]), Pace(s[n]) - Pace(s[n - 1]))
                         /\ Reach(tr, <<0, Way(s[n - 1]), Pace(s[n - 1])>>) <= far + 4
                         /\ Reach(tr, <<0, Reach(tr, s[n - 1]), Pace(s[n])>>) + 4 >= far)
             THEN {<<"last step", n>>} ELSE {})
       \* it ends only for a reason
       \cup (IF Pace(s[n]) >= goal - 1 \/ Way(s[n]) >= far - 1 \/ (n = 1 /\ Reach(tr, s[1]) + 4 >= far) THEN {}
             ELSE {<<"ends early", n, goal, far>>})

\* losing speed at the constant rate, down to the target exactly
Rungs(v0, vt) == (v0 - vt + Braking \div 2 - 1) \div (Braking \div 2)
BrakingWay(v0, vt) == ((v0 - vt) * (v0 + vt)) \div (2 * Braking)
BrakeFaults(v0, vt, s) ==
  LET n == Len(s) IN
  IF ~Begins(s, v0) THEN {<<"begins">>}
  ELSE (IF n - 1 \in {Rungs(v0, vt), Rungs(v0, vt) + 1} /\ (n - 1 = Rungs(v0, vt) \/ (v0 - vt) % (Braking \div 2) \in {0, 1, 349}) THEN {} ELSE {<<"takes", Rungs(v0, vt)>>})
       \cup {<<"time", i>> : i \in {j \in 1..n : Time(s[j]) # (j - 1) * Step}}
       \cup {<<"speed", i>> : i \in {j \in 1..(n - 1) : ~Close(Pace(s[j]), v0 - (j - 1) * (Braking \div 2), 1)}}
       \cup {<<"way", i>> : i \in {j \in 1..(n - 1) : ~Close(Way(s[j]), BrakingWay(v0, Pace(s[j])), 40)}}
       \cup {<<"back", i>> : i \in {j \in 1..(n - 1) : Way(s[j + 1]) < Way(s[j])}}
       \cup (IF Pace(s[n]) = vt /\ Close(Way(s[n]), BrakingWay(v0, vt), 3 + BrakingWay(v0, vt) \div 100000) THEN {} ELSE {<<"stops at", vt, BrakingWay(v0, vt)>>})

\* holding speed over a distance
CoastFaults(v, far, s) ==
  LET n == Len(s)
      steps == (far * 2 + v - 1) \div v IN
  IF ~Begins(s, v) THEN {<<"begins">>}
  ELSE (IF Close(n - 1, steps, IF (far * 2) % v \in {0, 1, v - 1} THEN 1 ELSE 0) THEN {} ELSE {<<"takes", steps>>})
       \cup {<<"time", i>> : i \in {j \in 1..n : Time(s[j]) # (j - 1) * Step}}
       \cup {<<"speed", i>> : i \in {j \in 1..n : Pace(s[j]) # v}}
       \cup {<<"way", i>> : i \in {j \in 1..(n - 1) : ~Close(Way(s[j]), ((j - 1) * v) \div 2, 1)}}
       \cup (IF far = 0 \/ Way(s[n]) = far THEN {} ELSE {<<"ends at", far>>})
=============================================================================
