-------------------------------- MODULE Dpd --------------------------------
(* Discrete probability distributions: a distribution is the bag of the mass  *)
(* inserted at each value, rounded to the granularity (half rounds down). Its *)
(* cells are all multiples of the granularity between the lowest and the      *)
(* highest value inserted. Masses are counted in 64ths; coordinates are kept  *)
(* as pairs <<t, v>>, v = 0 for one-dimensional distributions.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Init0 == [k \in 0..5 |-> <<>>]         \* per distribution: function from coordinates to mass

Gran1(kind) == IF kind = 2 THEN 1 ELSE 6
Gran2(kind) == IF kind = 3 THEN 1 ELSE 6
Round(x, g) == IF g <= 1 THEN x ELSE LET r == x % g IN IF r <= g \div 2 THEN x - r ELSE x - r + g
Dom(d) == DOMAIN d
Get(d, k) == IF k \in DOMAIN d THEN d[k] ELSE 0
Put(d, k, p) == (k :> (Get(d, k) + p)) @@ d
Span(S, g) == IF S = {} THEN <<>> ELSE LET lo == Min(S)  hi == Max(S) IN [i \in 1..((hi - lo) \div g + 1) |-> lo + (i - 1) * g]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

Cells1(d, g) == LET s == Span({k[1] : k \in Dom(d)}, g) IN [i \in 1..Len(s) |-> <<s[i], Get(d, <<s[i], 0>>)>>]
Inner(d, t, g) == LET s == Span({k[2] : k \in {x \in Dom(d) : x[1] = t}}, g) IN [i \in 1..Len(s) |-> <<s[i], Get(d, <<t, s[i]>>)>>]
Cells2(d, g1, g2) == LET s == Span({k[1] : k \in Dom(d)}, g1) IN [i \in 1..Len(s) |-> <<<<<<s[i], 0>>>>, Inner(d, s[i], g2)>>]
Mass(d) == MapThenSumSet(LAMBDA k : d[k], Dom(d))
NonZero(s) == SelectSeq(s, LAMBDA x : x[Len(x)] # 0)

View1(kind, d) == LET c == TLCEval(Cells1(d, Gran1(kind))) IN
  [empty |-> c = <<>>, cells |-> c, sum |-> Mass(d), len |-> Len(c), gran |-> Gran1(kind),
   iter |-> IF kind = 0 THEN NonZero(c) ELSE <<>>]
View2(kind, d) == LET c == TLCEval(Cells2(d, Gran1(kind), Gran2(kind))) IN
  [empty |-> c = <<>>, cells |-> c, sum |-> Mass(d), len |-> Len(c), gran |-> <<Gran1(kind), Gran2(kind)>>,
   iter |-> IF kind = 3 THEN NonZero(Cat([i \in 1..Len(c) |-> [j \in 1..Len(c[i][2]) |-> <<c[i][1][1][1], c[i][2][j][1], c[i][2][j][2]>>]])) ELSE <<>>]

One(res, st) == {[res |-> res, st |-> st]}
Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "ins" -> LET d == Put(st[c.kind], <<Round(c.t, Gran1(c.kind)), 0>>, c.p) IN
                     One(<<"ok", View1(c.kind, d)>>, [st EXCEPT ![c.kind] = d])
    [] op = "ins2" -> LET d == Put(st[c.kind], <<Round(c.t, Gran1(c.kind)), Round(c.v, Gran2(c.kind))>>, c.p) IN
                     One(<<"ok", View2(c.kind, d)>>, [st EXCEPT ![c.kind] = d])
    [] op = "probe" -> LET d == st[c.kind]  g == Gran1(c.kind)  t == Round(c.t, g)  lo == Min({k[1] : k \in Dom(d)}) IN
                     One(<<"ok", [idx |-> (t - lo) \div g, val |-> Get(d, <<t, 0>>)]>>, st)
    [] op = "write" -> LET d == (<<Round(c.t, Gran1(c.kind)), 0>> :> c.p) @@ st[c.kind] IN
                     One(<<"ok", View1(c.kind, d)>>, [st EXCEPT ![c.kind] = d])
    [] op = "probe2" -> LET d == st[c.kind]  g == Gran1(c.kind)  t == Round(c.t, g)  lo == Min({k[1] : k \in Dom(d)}) IN
                     One(<<"ok", [idx |-> (t - lo) \div g, cells |-> Inner(d, t, Gran2(c.kind))]>>, st)
    [] op = "round" -> One(<<"ok", <<Round(c.n, c.m), Round(c.n, c.m), Round(c.n % 60000, c.m), Round(c.n, c.m)>>>>, st)
    [] op = "back" -> LET f[i \in 0..Len(c.ts)] == IF i = 0 THEN <<>> ELSE Put(f[i - 1], <<Round(c.ts[i], 6), 0>>, 32) IN
                     One(<<"ok", Reverse(Cells1(f[Len(c.ts)], 6))>>, st)


=============================================================================
