----------------------------- MODULE Containers -----------------------------
(* The containers of utls: priority queue, sentinel-based optional, offset     *)
(* container, id iterator, sorted vector, iterator range, constant map.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Init0 == [pq |-> {}, min |-> FALSE, top |-> <<0, 0>>,
          opt |-> [w \in 0..3 |-> <<-1, -1, -1>>],
          oc |-> <<>>, vals |-> <<>>, ids |-> <<>>, pos |-> 0]

(* ---------------------------------------------------------- priority queue *)
(* items are <<key, id>> with distinct ids; every item of extreme key may be top *)
Best(items, min) == {x \in items : \A y \in items : IF min THEN x[1] <= y[1] ELSE x[1] >= y[1]}
PqIds(items) == SetToSortSeq({x[2] : x \in items}, <)
PqOut(st, items, min) ==
  IF items = {}
  THEN {[res |-> <<"ok", [empty |-> TRUE, ids |-> <<>>, top |-> <<0, 0>>]>>, st |-> [st EXCEPT !.pq = {}, !.min = min]]}
  ELSE {[res |-> <<"ok", [empty |-> FALSE, ids |-> PqIds(items), top |-> t]>>,
         st |-> [st EXCEPT !.pq = items, !.min = min, !.top = t]] : t \in Best(items, min)}

(* ---------------------------------------------------------------- optional *)
(* -1 stands for "no value" *)
OptView(o) ==
  LET Or(d) == IF o = -1 THEN d ELSE o IN
  [has |-> o # -1, bool |-> o # -1, or |-> Or(63), or_move |-> Or(62), or_else |-> Or(61), or_else_move |-> Or(60),
   val |-> o, value |-> o, arrow |-> o, moved |-> o,
   transform |-> IF o = -1 THEN 0 ELSE o + 100,
   then |-> IF o = -1 THEN -1 ELSE IF o < 20 THEN o + 200 ELSE -1,
   exec |-> IF o = -1 THEN <<>> ELSE <<o>>]
OptNext(os, k, i, j, v) ==
  CASE k = "set" -> [os EXCEPT ![i] = v]
    [] k \in {"null", "reset"} -> [os EXCEPT ![i] = -1]
    [] k \in {"assign", "move"} -> [os EXCEPT ![i] = os[j]]
    [] k = "swap" -> [os EXCEPT ![i] = os[j], ![j] = os[i]]
    [] k \in {"write", "write_value", "write_arrow", "write_move"} -> IF os[i] = -1 THEN os ELSE [os EXCEPT ![i] = v]

(* ------------------------------------------------------------- id iterator *)
Rel(p, q) == <<p = q, p # q, p < q, p <= q, p > q, p >= q>>
ItView(vals, ids, p, ret) ==
  LET n == Len(ids)
      all == [k \in 1..n |-> vals[ids[k] + 1]]
      v == IF p >= 0 /\ p < n THEN all[p + 1] ELSE -1 IN
  [pos |-> p, back |-> -p, left |-> n - p, val |-> v, arrow |-> v, at |-> all, at2 |-> all, plus |-> all, rplus |-> all, minus |-> all,
   rel |-> Rel(p, 0) \o Rel(p, n) \o Rel(p, n \div 2), ret |-> ret]
Move(k, p, d) == CASE k \in {"pre++", "post++"} -> p + 1
                   [] k \in {"pre--", "post--"} -> p - 1
                   [] k \in {"+=", "+", "d+"} -> p + d
                   [] k \in {"-=", "-"} -> p - d
Ret(k, p, q) == CASE k \in {"pre++", "pre--", "+=", "-="} -> q
                  [] k \in {"post++", "post--"} -> p
                  [] OTHER -> -1

(* ------------------------------------------------------------- the rest *)
SortView(s) == [iter |-> s, idx |-> s, at |-> s, size |-> Len(s), out |-> s]
By(v, Lt(_, _)) == SortView(SortSeq(v, Lt))
ModLess(a, b) == a % 10 < b % 10 \/ (a % 10 = b % 10 /\ a < b)
Lookup(keys, x) == LET S == {i \in 1..Len(keys) : keys[i] = x} IN IF S = {} THEN -1 ELSE 9 + Min(S)

One(res, st) == {[res |-> res, st |-> st]}
Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "pq_make" -> PqOut(st, {}, c.min)
    [] op = "pq_put" -> PqOut(st, st.pq \cup {<<c.k, c.id>>}, st.min)
    [] op = "pq_pop" -> PqOut(st, st.pq \ {st.top}, st.min)
    [] op = "opt" -> LET n == OptNext(st.opt[c.w], c.k, c.i + 1, c.j + 1, c.v) IN
                     One(<<"ok", [x \in 1..3 |-> OptView(n[x])]>>, [st EXCEPT !.opt[c.w] = n])
    [] op = "opt_misc" -> One(<<"ok", [make |-> c.v, guide |-> c.v, null |-> FALSE, dflt |-> FALSE, copy |-> c.v]>>, st)
    [] op = "oc_make" -> LET s == [x \in 1..c.n |-> 0] IN One(<<"ok", s>>, [st EXCEPT !.oc = s])
    [] op = "oc_set" -> LET s == [st.oc EXCEPT ![c.i + 1] = c.v] IN One(<<"ok", s>>, [st EXCEPT !.oc = s])
    [] op = "oc_add" -> LET s == [st.oc EXCEPT ![c.i + 1] = @ + c.v] IN One(<<"ok", s>>, [st EXCEPT !.oc = s])
    [] op = "oc_resize" -> LET s == [x \in 1..c.n |-> IF x <= Len(st.oc) THEN st.oc[x] ELSE 0] IN One(<<"ok", s>>, [st EXCEPT !.oc = s])
    [] op = "it_make" -> LET v == ItView(c.vals, c.ids, 0, -1) IN
                         One(<<"ok", <<v, v>>>>, [st EXCEPT !.vals = c.vals, !.ids = c.ids, !.pos = 0])
    [] op = "it" -> LET q == Move(c.k, st.pos, c.d)
                        v == ItView(st.vals, st.ids, q, Ret(c.k, st.pos, q)) IN
                    One(<<"ok", <<v, v>>>>, [st EXCEPT !.pos = q])
    [] op = "sorted" -> One(<<"ok", <<By(c.v, LAMBDA a, b : a < b), By(c.v, LAMBDA a, b : a > b), By(c.v, ModLess),
                                      By(c.v, LAMBDA a, b : a < b), SortView(<<>>)>>>>, st)
    [] op = "range" -> LET s == SubSeq(c.v, c.from + 1, c.to) IN
                       One(<<"ok", <<c.v, s, s, s, IF s = <<>> THEN s ELSE Tail(s)>>>>, st)
    [] op = "cmap" -> One(<<"ok", [i \in 1..7 |-> IF i = 7 THEN -1 ELSE Lookup(c.keys, i - 1)]>>, st)
=============================================================================
