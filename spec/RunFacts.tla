------------------------------ MODULE RunFacts ------------------------------
(* What can be observed of the runs of trains (P22, P23).                     *)
EXTENDS Runs

Init0 == <<>>
Apply(op, ev, T) ==
  IF op \in RunOps THEN ApplyRuns(op, ev, T) ELSE IF op \in TTOps THEN ApplyTT(op, ev, T) ELSE ApplyNet(op, ev, T)
=============================================================================
