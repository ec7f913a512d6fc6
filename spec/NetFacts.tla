------------------------------ MODULE NetFacts ------------------------------
(* What can be observed of interlocking routes, as facts about a plan.        *)
EXTENDS Interlocking

Init0 == <<>>
Apply(op, ev, T) == ApplyNet(op, ev, T)
=============================================================================
