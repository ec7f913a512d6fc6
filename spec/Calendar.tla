------------------------------ MODULE Calendar -----------------------------
(* Service calendars: three of them, each a set of days within an interval of  *)
(* days; days are numbers. A calendar that was never set covers no day.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Length == 512
None == [first |-> 0, last |-> -1, days |-> {}]
Init0 == [i \in 0..2 |-> None]
One(res, st) == {[res |-> res, st |-> st]}
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Listed(S) == SetToSortSeq(S, <)
Covers(b, d) == b.first <= d /\ d <= b.last
Fits(b) == b.last - b.first < Length

Made(c) == [first |-> c.first, last |-> c.first + Len(c.mask) - 1, days |-> {c.first + i - 1 : i \in {j \in 1..Len(c.mask) : c.mask[j] = 1}}]
Put(b, d, v) == [first |-> Least(b.first, d), last |-> Most(b.last, d), days |-> IF v THEN b.days \cup {d} ELSE b.days \ {d}]
Join(a, b) == [first |-> Least(a.first, b.first), last |-> Most(a.last, b.last), days |-> a.days \cup b.days]
\* a time is <<day, second>>; both ends of an interval belong to it
From(b, t) == {d \in b.days : d >= t[1]}
Upto(b, t) == {d \in b.days : d <= t[1]}

Sound(st) == \A i \in 0..2 : \A d \in st[i].days : Covers(st[i], d)

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "make" -> One(<<"ok">>, [st EXCEPT ![c.i] = Made(c)])
    [] op = "set" -> One(<<"ok">>, [st EXCEPT ![c.i] = Put(@, c.d, c.v)])
    [] op = "copy" -> One(<<"ok">>, [st EXCEPT ![c.i] = st[c.j]])
    [] op = "join" -> One(<<"ok">>, [st EXCEPT ![c.k] = Join(st[c.i], st[c.j])])
    [] op = "add" -> One(<<"ok", TRUE>>, [st EXCEPT ![c.i] = Join(st[c.i], st[c.j])])
    [] op = "look" -> LET l == Listed(st[c.i].days) IN One(<<"ok", [ok |-> st[c.i] # None, days |-> l, walk |-> l, count |-> Len(l)]>>, st)
    [] op = "ends" -> LET b == st[c.i] IN One(<<"ok", <<b.first, b.last, Min(b.days), Max(b.days)>>>>, st)
    [] op = "at" -> One(IF Covers(st[c.i], c.d) THEN <<"ok", c.d \in st[c.i].days>> ELSE <<"exc">>, st)
    [] op = "index" -> One(IF Covers(st[c.i], c.d) THEN <<"ok", c.d \in st[c.i].days>> ELSE <<"exc">>, st)
    [] op = "between" -> One(<<"ok", Listed(From(st[c.i], c.f) \cap Upto(st[c.i], c.t))>>, st)
    [] op = "after" -> One(<<"ok", <<Listed(From(st[c.i], c.t)), Listed(Upto(st[c.i], c.t))>>>>, st)
    [] op = "compare" -> LET e == st[c.i].days = st[c.j].days IN One(<<"ok", <<st[c.i] = st[c.j], e, e>>>>, st)
\* what may be asked
Allowed(c, st) ==
  CASE c.op = "set" -> st[c.i] # None /\ Fits(Put(st[c.i], c.d, c.v))
    [] c.op \in {"join", "add"} -> st[c.i] # None /\ st[c.j] # None /\ Fits(Join(st[c.i], st[c.j]))
    [] c.op = "ends" -> st[c.i].days # {}
    [] c.op \in {"between"} -> st[c.i] # None /\ (c.f[1] < c.t[1] \/ (c.f[1] = c.t[1] /\ c.f[2] <= c.t[2]))
    [] c.op \in {"at", "index", "after", "copy", "compare"} -> (c.op = "copy" /\ st[c.j] # None) \/ (c.op # "copy" /\ st[c.i] # None /\ (c.op # "compare" \/ st[c.j] # None))
    [] OTHER -> TRUE
=============================================================================
