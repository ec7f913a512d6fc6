------------------------------- MODULE Errors ------------------------------
(* Errors are pairs of a component and a number from one on. Results carry     *)
(* either a value or an error through any number of callers, and statistics    *)
(* count errors.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0 == 0
One(res, st) == {[res |-> res, st |-> st]}
Own == {<<"kss", n>> : n \in 1..13} \cup {<<"route", n>> : n \in 1..5} \cup {<<"stock", 1>>, <<"timetable", 1>>}
All == Own \cup {<<"std", 1>>, <<"std", 2>>}
SameError(a, b) == a[1] = b[1] /\ a[2] = b[2]

Count(es, e) == Cardinality({i \in 1..Len(es) : SameError(es[i], e)})
CompareOk(c, r) ==
  /\ r.same = (c.a = c.b)
  /\ r.same_kind = (c.a[1] = c.b[1])
  /\ r.same_name = (c.a[1] = c.b[1])
  /\ r.same_message = (c.a = c.b)
  /\ r.set /\ ~r.success /\ ~r.empty
  /\ c.a[1] # "std" => ~r.placeholder
  \* a total order
  /\ Cardinality({i \in 1..2 : r.less[i]}) = IF c.a = c.b THEN 0 ELSE 1
Law(P(_, _), c, st) == IF "res" \in DOMAIN c /\ c.res[1] = "ok" THEN IF P(c, c.res[2]) THEN One(c.res, st) ELSE {} ELSE {}

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "compare" -> IF "res" \in DOMAIN c THEN Law(CompareOk, c, st) ELSE One(<<"ok">>, st)
    [] op = "result" -> One(<<"ok", [has |-> ~c.fails, value |-> IF c.fails THEN "" ELSE ToString(c.v), error |-> c.fails]>>, st)
    [] op = "count" -> One(<<"ok", [counts |-> [i \in 1..Len(c.ask) |-> LET n == Count(c.es, c.ask[i]) IN <<n, IF n = 0 THEN 0 ELSE 1>>],
                                    kinds |-> Cardinality({<<c.es[i][1], c.es[i][2]>> : i \in 1..Len(c.es)}), silent |-> c.es = <<>>, named |-> c.es # <<>>]>>, st)
    [] op = "assert" -> One(<<"ok", LET t == c.checked /\ ~c.b IN [checked |-> c.checked, throws |-> <<t, t, t, t, t, t, t>>, ran |-> <<c.checked, c.checked, c.checked>>]>>, st)
    [] op = "misuse" -> One(<<"ok", c.checked>>, st)
=============================================================================
