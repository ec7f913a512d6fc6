---------------------------- MODULE Sequences2 ----------------------------
(* Sequence helpers (P28) and shorthand wrappers (P37) by their definition.  *)
(* Sequences are finite sequences of integers; multiplicities are compared   *)
(* as bags.                                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
Init0 == 0
Ok(v, st) == {[res |-> <<"ok", v>>, st |-> st]}
Rng(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Times(x, n) == [i \in 1..n |-> x]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Ordered(S) == SetToSortSeq(S, <)
\* each x of S (ascending) f(x) times
Bagged(S, f(_)) == LET o == Ordered(S) IN Flat([i \in 1..Len(o) |-> Times(o[i], f(o[i]))])
SortOf(s) == LET f(x) == Count(s, x) IN Bagged(Rng(s), f)
Inter(a, b) == LET f(x) == Min2(Count(a, x), Count(b, x)) IN Bagged(Rng(a) \cup Rng(b), f)
Diff(a, b) == LET f(x) == Max2(0, Count(a, x) - Count(b, x)) IN Bagged(Rng(a), f)
Union(a, b) == Ordered(Rng(a) \cup Rng(b))
SameBag(a, b) == \A x \in Rng(a) \cup Rng(b) : Count(a, x) = Count(b, x)
\* the predicate x % m = r
P(c, x) == x % c.m = c.r
Hits(c) == {i \in 1..Len(c.v) : P(c, c.v[i])}
FirstOf(S, n) == IF S = {} THEN n + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
LastOf(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
At(c) == {i \in 1..Len(c.v) : c.v[i] = c.k}
RECURSIVE FoldL(_, _)
FoldL(acc, s) == IF s = <<>> THEN acc ELSE FoldL((acc * 3 + s[1]) % 1009, Tail(s))
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE ToString(s[1]) \o "," \o Text(Tail(s))
MinAt(s, key(_)) == IF s = <<>> THEN 0 ELSE CHOOSE i \in 1..Len(s) :
   /\ \A j \in 1..Len(s) : key(s[i]) <= key(s[j])
   /\ \A j \in 1..(i - 1) : key(s[i]) < key(s[j])
\* s as a subsequence of v with indices taken in order
RECURSIVE SubSeqOf(_, _)
SubSeqOf(s, v) == IF s = <<>> THEN TRUE ELSE IF v = <<>> THEN FALSE
  ELSE IF s[1] = v[1] THEN SubSeqOf(Tail(s), Tail(v)) ELSE SubSeqOf(s, Tail(v))
\* answers that are not unique are judged: the real answer if it is one of the
\* permitted ones, otherwise some permitted one
Got(c, f) == IF "res" \in DOMAIN c /\ Len(c.res) = 2 THEN c.res[2][f] ELSE <<>>
Allow(ok, got, other) == IF ok THEN got ELSE other

Pair(c) == LET a == c.a  b == c.b  both == Rng(a) \cap Rng(b) # {} IN
  [ merge   |-> IF Sorted(a) /\ Sorted(b) THEN <<"ok", Union(a, b)>> ELSE <<"exc">>,
    overlap |-> IF Sorted(a) /\ Sorted(b) THEN <<"ok", both>> ELSE <<"exc">>,
    over2   |-> both, over3 |-> both,
    getover |-> Inter(a, b),            \* of the sorted sequences
    sinter  |-> <<Inter(a, b), SortOf(a), SortOf(b)>>,
    inter   |-> Inter(a, b),
    sdiff   |-> Diff(a, b) ]
\* the common elements in the order of the first sequence; which of several equal
\* elements stands for the others is open
NonSorted(c, got) == Allow(SameBag(got, Inter(c.a, c.b)) /\ SubSeqOf(got, c.a), got, Inter(c.a, c.b))
Perm(v, got) == \* 0-based indices that sort v
  Allow(Len(got) = Len(v) /\ {got[i] : i \in 1..Len(got)} = 0..(Len(v) - 1) /\ (\A i \in 1..(Len(v) - 1) : v[got[i] + 1] <= v[got[i + 1] + 1]),
        got, <<"a sorting permutation">>)

Apply(op, c, st) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> st]}
    [] op = "pair" -> Ok(Pair(c), st)
    [] op = "unsorted" -> Ok([common |-> NonSorted(c, Got(c, "common")), perm |-> Perm(c.a, Got(c, "perm"))], st)
    [] op = "cut" ->      \* predicates and positions
         LET v == c.v  n == Len(v)
             from == c.from  to == c.to
             f == IF from > n THEN 0 ELSE from
             t == IF to > n THEN n ELSE to
         IN Ok([ after |-> SubSeq(v, 1, LastOf(Hits(c))), until |-> SubSeq(v, FirstOf(Hits(c), n), n),
                 slice |-> IF from <= to /\ to <= n THEN SubSeq(v, from + 1, to) ELSE <<0 - 1>>,
                 copy  |-> IF from <= to /\ to <= n THEN SubSeq(v, from + 1, to) ELSE <<0 - 1>>,
                 clasp |-> IF f <= t THEN SubSeq(v, f + 1, t) ELSE <<0 - 1>>,
                 claspc |-> IF f <= t THEN SubSeq(v, f + 1, t) ELSE <<0 - 1>>,
                 range |-> IF from <= to /\ to <= n THEN SubSeq(v, from + 1, to) ELSE <<0 - 1>>,
                 claspr |-> IF f <= t THEN SubSeq(v, f + 1, t) ELSE <<0 - 1>>,
                 kept |-> v ], st)
    [] op = "merge" -> Ok(Ordered(UNION {Rng(c.sets[i]) : i \in 1..Len(c.sets)}), st)
    \* ---- shorthands ----
    [] op = "short" ->
         LET v == c.v  n == Len(v)
             hits == Hits(c)  at == At(c)
             id(x) == x  neg(x) == 0 - x  md(x) == x % 3
             bools == [i \in 1..n |-> P(c, v[i])]
         IN Ok([ contains |-> at # {}, containsif |-> hits # {}, count |-> Cardinality(at), countif |-> Cardinality(hits),
                 all |-> hits = 1..n, any |-> hits # {}, allb |-> hits = 1..n, anyb |-> hits # {}, allv |-> hits = 1..n, anyv |-> hits # {},
                 find |-> FirstOf(at, n) - 1, findif |-> FirstOf(hits, n) - 1, findpos |-> FirstOf(at, n) - 1, findifpos |-> FirstOf(hits, n) - 1,
                 copy |-> v, reverse |-> [i \in 1..n |-> v[n + 1 - i]],
                 sum |-> SumOf(v) + c.k, fold |-> FoldL(c.k, v), text |-> ">" \o Text(v),
                 sorted |-> Sorted(v), sortedgt |-> \A i \in 1..(n - 1) : v[i] >= v[i + 1],
                 sortedmod |-> \A i \in 1..(n - 1) : v[i] % 3 <= v[i + 1] % 3,
                 sort |-> SortOf(v), sortgt |-> LET s == SortOf(v) IN [i \in 1..n |-> s[n + 1 - i]],
                 sortmod |-> LET got == Got(c, "sortmod") IN
                             Allow(SameBag(got, v) /\ Len(got) = n /\ \A i \in 1..(n - 1) : got[i] % 3 <= got[i + 1] % 3, got, SortOf(v)),
                 min |-> IF n = 0 THEN 0 ELSE MinAt(v, id) - 1, max |-> IF n = 0 THEN 0 ELSE MinAt(v, neg) - 1,
                 minmod |-> IF n = 0 THEN 0 ELSE MinAt(v, md) - 1,
                 tovec |-> v, tolist |-> v, toset |-> Ordered(Rng(v)), kept |-> v,
                 \* the same questions to a list, a C array of the first three and a set
                 lfind |-> FirstOf(at, n) - 1, lcount |-> Cardinality(hits), lcont |-> at # {}, lsum |-> SumOf(v), ssorted |-> TRUE ], st)
    [] op = "tuple" ->    \* a tuple of the first four
         LET v == c.v
             hits == {i \in 1..4 : P(c, v[i])}
         IN Ok([ each |-> v, eachc |-> v, incr |-> [i \in 1..4 |-> v[i] + i], find |-> FirstOf(hits, 4) - 1,
                 at |-> IF c.k < 4 THEN <<"ok", v[c.k + 1]>> ELSE <<"exc">>,
                 atw |-> IF c.k < 4 THEN <<"ok", [v EXCEPT ![c.k + 1] = 99]>> ELSE <<"exc">>,
                 s04 |-> v, s00 |-> <<>>, s13 |-> SubSeq(v, 2, 3), s24 |-> SubSeq(v, 3, 4), s01 |-> <<v[1]>>, s34 |-> <<v[4]>>, s12 |-> <<v[2]>> ], st)
    [] op = "insert_or" ->  \* a map as the sequence of its values at 0, 1, 2; -1 for none
         LET new == IF c.map[c.k + 1] = 0 - 1 THEN c.v ELSE c.map[c.k + 1] * 10 + c.v
         IN Ok([map |-> [c.map EXCEPT ![c.k + 1] = new], called |-> c.map[c.k + 1] # 0 - 1], st)
    [] op = "alias" -> Ok([sum |-> c.v[1] - c.v[2], ref |-> c.v[1] + 1, cast |-> c.v[1], ifyes |-> c.v[1] + 5, ifno |-> 0, noex |-> TRUE, thr |-> FALSE], st)
    [] op = "static" -> Ok([i \in 1..c.n |-> TRUE], st)

-----------------------------------------------------------------------------
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
(* the definitions agree with each other *)
Laws(a, b) ==
  /\ Sorted(SortOf(a)) /\ SameBag(SortOf(a), a)
  /\ Len(Inter(a, b)) + Len(Diff(a, b)) = Len(a)
  /\ Rng(Inter(a, b)) = Rng(a) \cap Rng(b)
  /\ Len(Union(a, b)) = Cardinality(Rng(a) \cup Rng(b))
=============================================================================
