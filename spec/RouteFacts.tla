----------------------------- MODULE RouteFacts -----------------------------
(* What can be observed of station routes, as facts about a plan (P04 - P06). *)
EXTENDS Routes

Init0 == <<>>
Apply(op, ev, T) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> DeriveRoutes(ev.plan)]}
    [] op = "loads" -> Judge(ev, <<"ok">>, T)
    [] op = "routes" -> Judge(ev, RecsRes(ev, [k \in DOMAIN T.P.routes |-> Facts(T, k)]), T)
    [] op = "limits" -> Judge(ev, Verdict(UNION {LimitFaults(T, k, ev.spl[k]) : k \in DOMAIN ev.spl}), T)
    [] op = "by_name" -> Judge(ev, SeqRes(ev, [s \in DOMAIN T.P.names |-> Cardinality(ByName(T, s))]), T)
    [] op = "station_routes" -> Judge(ev, SetRes(ev, UNION {{<<s, x[1], x[2]>> : x \in ByName(T, s)} : s \in DOMAIN T.P.names}), T)
    [] op = "station_starts" -> Judge(ev, SetRes(ev, UNION {{<<s, x[1], x[2]>> : x \in ByStart(T, s)} : s \in DOMAIN T.P.names}), T)
    [] op = "parts" -> Judge(ev, Verdict(UNION {PartFaults(T, q[1], q[2], q[3], q[4]) : q \in Rng(ev.q)}), T)
    [] op = "succ" -> Judge(ev, SetRes(ev, Succ(T)), T)
    [] op = "pred" -> Judge(ev, SetRes(ev, {<<y, x>> : <<x, y>> \in Succ(T)}), T)
=============================================================================
