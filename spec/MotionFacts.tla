---------------------------- MODULE MotionFacts ----------------------------
(* What can be observed of single movements (P24).                            *)
EXTENDS Motion

Verdict(F) == IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>
One(res, st) == {[res |-> res, st |-> st]}

Init0 == <<>>
Apply(op, ev, tr) ==
  CASE op = "new" -> One(<<"ok">>, <<>>)
    [] op = "train" -> One(<<"ok", <<MmPerSec(TopOf(ev.t)), ev.t.weight, ev.t.len, 0 - Braking, ev.t.freight, ev.t.ctc>>>>, ev.t)
    [] op = "forces" -> One(Verdict({<<"force", i>> : i \in {j \in DOMAIN ev.v : ~ForcesOk(tr, ev.v[j], ev.got[j])}}), tr)
    [] op = "too_fast" -> One(<<"exc">>, tr)
    [] op = "accelerate" -> One(Verdict(AccelFaults(tr, ev.v0, ev.vt, ev.far, ev.got)), tr)
    [] op = "brake" -> IF ev.v0 <= ev.vt THEN One(<<"exc">>, tr) ELSE One(Verdict(BrakeFaults(ev.v0, ev.vt, ev.got)), tr)
    [] op = "coast" -> IF ev.v = 0 /\ ev.far > 0 THEN One(<<"exc">>, tr) ELSE One(Verdict(CoastFaults(ev.v, ev.far, ev.got)), tr)
=============================================================================
