----------------------------- MODULE Quantities -----------------------------
(* Typed numbers, physical quantities and their units, type lists.            *)
(* Units are vectors of exponents over (metre, second, kilogram, ampere).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Init0 == 0
One(res, st) == {[res |-> res, st |-> st]}
Abs(x) == IF x < 0 THEN -x ELSE x
\* division of C: towards zero
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
RelOf(a, b) == <<a = b, a # b, a < b, a <= b, a > b, a >= b>>

Strong(a, b) ==
  [add |-> a + b, sub |-> a - b, mul |-> a * b, div |-> Quot(a, b), kept |-> <<a, b>>,
   cadd |-> a + b, csub |-> a - b, cmul |-> a * b, cdiv |-> Quot(a, b),
   assign |-> <<a + b + 1, a - b + 1, a * b + 1, Quot(a, b) + 1>>, rel |-> RelOf(a, b)]

Kmh(a, b) ==
  [add |-> a + b, sub |-> IF a >= b THEN a - b ELSE -1, div |-> IF b = 0 THEN -1 ELSE a \div b, mod |-> IF b = 0 THEN -1 ELSE a % b,
   plus |-> a + b, inc |-> <<a + 1, a + 1, 1>>, conv |-> <<a, a>>, str |-> ToString(a) \o "[km/h]",
   rel |-> RelOf(a, b), kept |-> <<a, b>>]

(* ------------------------------------------------------------------ units *)
Unit == [u \in 0..11 |->
  CASE u = 0 -> <<0, 0, 0, 0>> [] u = 1 -> <<1, 0, 0, 0>> [] u = 2 -> <<0, 1, 0, 0>> [] u = 3 -> <<0, 0, 1, 0>> [] u = 4 -> <<0, 0, 0, 1>>
    [] u = 5 -> <<1, -1, 0, 0>> [] u = 6 -> <<1, -2, 0, 0>> [] u = 7 -> <<1, -2, 1, 0>> [] u = 8 -> <<2, 0, 0, 0>> [] u = 9 -> <<0, -1, 0, 0>>
    [] u = 10 -> <<3, -1, 1, -2>> [] u = 11 -> <<-1, 1, -4, 1>>]
Plus(e, f) == [i \in 1..4 |-> e[i] + f[i]]
Minus(e, f) == [i \in 1..4 |-> e[i] - f[i]]
Times(e, n) == [i \in 1..4 |-> e[i] * n]
Pos(x) == IF x > 0 THEN x ELSE 0
Dims(e) == [i \in 1..8 |-> IF i <= 4 THEN Pos(e[i]) ELSE Pos(-e[i - 4])]
Symbol == <<"m", "s", "kg", "A">>
Exponent(n) == CASE n = 1 -> "" [] n = 2 -> "²" [] n = 3 -> "³" [] n = 4 -> "⁴" [] n = 5 -> "⁵" [] n = 6 -> "⁶" [] n = 7 -> "⁷" [] n = 8 -> "⁸" [] n = 9 -> "⁹"
RECURSIVE Product(_, _)
Product(e, i) == IF i > 4 THEN "" ELSE
  LET rest == Product(e, i + 1) IN
  IF e[i] <= 0 THEN rest ELSE Symbol[i] \o Exponent(e[i]) \o (IF rest = "" THEN "" ELSE "*" \o rest)
UnitText(e) == LET n == Product(e, 1)  d == Product(Times(e, -1), 1) IN
  IF d = "" THEN "[" \o n \o "]" ELSE "[" \o (IF n = "" THEN "1" ELSE n) \o "/" \o d \o "]"
Describe(val, e) ==
  [val |-> val, dims |-> Dims(e), unit |-> UnitText(e), frac |-> \E i \in 1..4 : e[i] < 0, unitless |-> \A i \in 1..4 : e[i] = 0, str |-> TRUE, out |-> TRUE]

\* equality of quantities holds within a hundredth; numbers are counted in 1024ths
Near(a, b) == Abs(a - b) * 100 < 1024
Frac(u, a, b, s) ==
  [add |-> a + b, sub |-> a - b, neg |-> -a, scale |-> <<a * s, a * s>>,
   assign |-> <<a + b, a - b, a * s, a + b, a - b, a * s>>, abs |-> Abs(a),
   rel |-> <<Near(a, b), ~Near(a, b), a < b, a <= b, a > b, a >= b, Near(a, b), Near(a, b), Near(a, b), Near(a, 0)>>,
   valid |-> <<TRUE, FALSE, FALSE, TRUE, Near(a, 0), TRUE>>, kept |-> <<a, b>>,
   is |-> <<TRUE, FALSE, TRUE, FALSE>>, desc |-> Describe(a, Unit[u])]

RECURSIVE PowOf(_, _)
PowOf(a, n) == IF n = 0 THEN 1 ELSE a * PowOf(a, n - 1)
Pows(u, a) == IF u > 9 THEN <<>> ELSE [i \in 1..6 |-> LET n == ((i - 1) % 3) + 1 IN Describe(PowOf(a, n), Times(Unit[u], n))]

\* x = k / 8; answers in 8000ths unless named otherwise
Si(k) == [m |-> k * 1000, km |-> k * 1000, km8 |-> k * 1000, s |-> k * 1000, ms |-> k * 1000, kmh |-> k * 1000, kmh36 |-> k * 1000,
          askmh |-> k * 18, kg |-> k * 1000, ton8 |-> k * 1000, aston |-> k * 1000, kgton |-> k, a |-> k * 1000, u |-> k * 1000]

Consts == [g |-> 9810, mass |-> 1060, gran |-> <<1, 6, 6>>, kmh |-> <<65535, 0>>,
           opts |-> <<TRUE, TRUE, FALSE, FALSE, FALSE, TRUE, TRUE, FALSE, TRUE, TRUE>>, freight |-> <<TRUE, FALSE>>]

(* ------------------------------------------------------------- type lists *)
CountIn(l, x) == Cardinality({i \in 1..Len(l) : l[i] = x})
RECURSIVE Drop(_, _, _)
Drop(l, x, n) == IF n = 0 \/ l = <<>> THEN l
                 ELSE IF l[1] = x THEN Drop(Tail(l), x, n - 1) ELSE <<l[1]>> \o Drop(Tail(l), x, n)
RECURSIVE Rep(_, _)
Rep(l, n) == IF n = 0 THEN <<>> ELSE l \o Rep(l, n - 1)
About(l) ==
  [count |-> <<CountIn(l, 0), CountIn(l, 1), CountIn(l, 2), 0>>,
   once |-> <<Drop(l, 0, 1), Drop(l, 1, 1), Drop(l, 2, 1), l>>,
   times |-> <<l, Drop(l, 0, 1), Drop(l, 0, 2), Drop(l, 0, 3), Drop(l, 1, 2), Drop(l, 2, 3)>>,
   front |-> <<<<0>> \o l, <<1>> \o l, l>>,
   concat |-> <<l \o l, l, l, l \o <<2, 1>>, <<0, 2>> \o l>>,
   repeat |-> <<<<>>, l, l \o l, l \o l \o l>>]
RECURSIVE Lists(_, _)
Lists(n, l) == <<[list |-> l, about |-> About(l)]>> \o
  (IF n = 0 THEN <<>> ELSE Lists(n - 1, <<0>> \o l) \o Lists(n - 1, <<1>> \o l) \o Lists(n - 1, <<2>> \o l))

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "strong" -> One(<<"ok", <<Strong(c.a, c.b), Strong(c.a, c.b)>>>>, st)
    [] op = "kmh" -> One(<<"ok", Kmh(c.a, c.b)>>, st)
    [] op = "frac" -> One(<<"ok", Frac(c.u, c.a, c.b, c.s)>>, st)
    [] op = "prod" -> One(<<"ok", <<Describe(c.a * c.b, Plus(Unit[c.u], Unit[c.w])), Describe(c.a, Minus(Unit[c.u], Unit[c.w]))>>>>, st)
    [] op = "pow" -> One(<<"ok", Pows(c.u, c.a)>>, st)
    [] op = "convert" -> One(<<"ok", <<c.a, 2 * c.a>>>>, st)
    [] op = "si" -> One(<<"ok", Si(c.k)>>, st)
    [] op = "consts" -> One(<<"ok", Consts>>, st)
    [] op = "lists" -> One(<<"ok", Lists(3, <<>>)>>, st)

(* laws of the unit algebra, checked on the specification *)
Laws == \A u \in 0..11, w \in 0..11 :
  /\ Plus(Unit[u], Unit[w]) = Plus(Unit[w], Unit[u])
  /\ Minus(Plus(Unit[u], Unit[w]), Unit[w]) = Unit[u]
  /\ \A i \in 1..4 : LET d == Dims(Plus(Unit[u], Unit[w])) IN d[i] = 0 \/ d[i + 4] = 0
=============================================================================
