----------------------------- MODULE TrainFacts -----------------------------
(* What can be observed of loaded trains (P20, P21).                          *)
EXTENDS Timetable

Init0 == <<>>
Apply(op, ev, T) == IF op \in TTOps THEN ApplyTT(op, ev, T) ELSE ApplyNet(op, ev, T)
=============================================================================
