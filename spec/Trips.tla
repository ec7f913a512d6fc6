------------------------------- MODULE Trips -------------------------------
(* The trips of one train: a set of service days (numbers), the departure at  *)
(* its first and the arrival at its last stop in seconds after midnight of    *)
(* the service day, either of which may lie days later. Windows are closed    *)
(* intervals of seconds; a bound <<d, s>> means second s of day d.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Day == 86400
Init0 == [days |-> {}, dep |-> 0, arr |-> 0, id |-> 0]
One(res, st) == {[res |-> res, st |-> st]}
Listed(S) == SetToSortSeq(S, <)
\* days and seconds, so that no number leaves 32 bits
Norm(d, s) == <<d + s \div Day, s % Day>>
LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

Begin(st, d) == Norm(d, st.dep)
End(st, d) == Norm(d, st.arr)
Runs(st, d, from, to) == LE(Begin(st, d), to) /\ LE(from, End(st, d))
Departures(st, from, to) == {d \in st.days : Runs(st, d, from, to)}

Made(c) == [days |-> {c.first + i - 1 : i \in {j \in 1..Len(c.mask) : c.mask[j] = 1}}, dep |-> c.dep, arr |-> c.arr, id |-> c.id]

\* what holds of every train and window
Sound(st, W) ==
  /\ \A w \in W : Departures(st, w[1], w[2]) \subseteq st.days
  \* a window cut in two lists every trip at least once and no others
  /\ \A w \in W, x \in W : w[2] = x[1] => Departures(st, w[1], x[2]) = Departures(st, w[1], w[2]) \cup Departures(st, x[1], x[2])
  \* a trip is found in the window it departs in
  /\ \A d \in st.days : d \in Departures(st, Begin(st, d), Begin(st, d)) /\ d \in Departures(st, End(st, d), End(st, d))

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "train" -> One(<<"ok">>, Made(c))
    [] op = "day" -> One(<<"ok">>, [st EXCEPT !.days = IF c.v THEN @ \cup {c.d} ELSE @ \ {c.d}])
    [] op = "between" -> One(<<"ok", Listed(Departures(st, c.from, c.to))>>, st)
    [] op = "all" -> LET l == Listed(st.days) IN One(<<"ok", [deps |-> l, trips |-> [i \in 1..Len(l) |-> <<st.id, l[i]>>], count |-> Len(l)]>>, st)
    [] op = "when" -> One(<<"ok", <<Begin(st, c.d), End(st, c.d)>>>>, st)
    [] op = "ends" -> One(<<"ok", <<st.dep, st.arr, Begin(st, Min(st.days)), End(st, Max(st.days))>>>>, st)
Allowed(c, st) ==
  CASE c.op = "when" -> c.d \in st.days
    [] c.op = "ends" -> st.days # {}
    [] OTHER -> TRUE
=============================================================================
