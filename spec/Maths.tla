------------------------------- MODULE Maths -------------------------------
(* Polynomials (coefficients from the highest degree down) and piecewise      *)
(* functions. Points are given in eighths, values in 512ths, borders of       *)
(* pieces in 1024ths.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0 == 0
One(res, st) == {[res |-> res, st |-> st]}
Abs(x) == IF x < 0 THEN -x ELSE x
\* sum of a[i] x^(n-i) with x = k/8, times 512
Term(a, k, e) == CASE e = 0 -> a * 512 [] e = 1 -> a * k * 64 [] e = 2 -> a * k * k * 8 [] e = 3 -> a * k * k * k
RECURSIVE Eval(_, _, _)
Eval(a, k, i) == IF i > Len(a) THEN 0 ELSE Term(a[i], k, Len(a) - i) + Eval(a, k, i + 1)
Values(a, xs) == [i \in 1..Len(xs) |-> Eval(a, xs[i], 1)]
\* piecewise: the first piece that ends behind the point
Covering(to, x) == {i \in 1..Len(to) : x * 128 < to[i]}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
ValueAt(c, x) == LET S == Covering(c.to, x) IN IF S = {} THEN <<0, 0>> ELSE <<1, Eval(c.cs[Least(S)], x, 1)>>
\* borders meet within a hundredth
Meet(a, b) == Abs(a - b) * 100 < 1024
Continuous(c) == \A i \in 1..(Len(c.to) - 1) : Meet(c.to[i], c.from[i + 1])

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "poly" -> LET v == Values(c.a, c.xs) IN One(<<"ok", [val |-> v, valf |-> v, deg |-> Len(c.a) - 1]>>, st)
    [] op = "typed" -> One(<<"ok", Values(c.a, c.xs)>>, st)
    [] op = "none" -> One(<<"ok", <<0, 0>>>>, st)
    [] op = "piecewise" -> One(<<"ok", [cont |-> <<Continuous(c), Continuous(c)>>, made |-> <<Continuous(c), Continuous(c)>>,
                                        vals |-> [i \in 1..Len(c.xs) |-> LET v == ValueAt(c, c.xs[i]) IN <<v, v>>],
                                        own |-> [i \in 1..Len(c.cs) |-> Eval(c.cs[i], 16, 1)]]>>, st)
    [] op = "two" -> One(<<"ok", IF Meet(0, c.gap) THEN <<1, Eval(<<c.a[1], c.a[2]>>, 4, 1), Eval(<<c.a[3], c.a[4]>>, 24, 1)>> ELSE <<0, 0, 0>>>>, st)
=============================================================================
