---------------------------- MODULE ExclusionSet ----------------------------
(* A bank of exclusion sets (registers 1..R) as plain mathematical sets of    *)
(* route ids.  Every mutating operation of the real class is one action; the  *)
(* result of an action is the complete observation of all registers, so that  *)
(* every query is checked after every step.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

R == 3
Init0 == [r \in 1..R |-> {}]

Sorted(S) == SetToSortSeq(S, <)
Order(A, B) == IF A = B THEN "eq" ELSE IF A \subseteq B THEN "lt"
               ELSE IF B \subseteq A THEN "gt" ELSE "un"
Rng(s) == {s[i] : i \in 1..Len(s)}

\* what a caller can see of the registers, probing membership of `probes`
Obs(st, probes) ==
  LET sorted == [r \in 1..R |-> Sorted(st[r])] IN
  [ exp  |-> sorted,
    iter |-> sorted,
    cnt  |-> [r \in 1..R |-> Cardinality(st[r])],
    emp  |-> [r \in 1..R |-> st[r] = {}],
    any  |-> [r \in 1..R |-> st[r] # {}],
    has  |-> [r \in 1..R |-> [i \in 1..Len(probes) |-> probes[i] \in st[r]]],
    cmp  |-> [r \in 1..R |-> [s \in 1..R |-> Order(st[r], st[s])]],
    sup  |-> [r \in 1..R |-> [s \in 1..R |-> st[s] \subseteq st[r]]],
    eq   |-> [r \in 1..R |-> [s \in 1..R |-> st[r] = st[s]]] ]

Step(st, r, S, probes) ==
  LET n == [st EXCEPT ![r] = S] IN {[res |-> <<"ok", Obs(n, probes)>>, st |-> n]}

Apply(op, c, st) ==
  CASE op = "new"   -> {[res |-> <<"ok">>, st |-> Init0]}
    [] op = "make"  -> Step(st, c.r, Rng(c.ids), c.probes)
    [] op = "set"   -> Step(st, c.r, st[c.r] \cup {c.i}, c.probes)
    [] op = "clear" -> Step(st, c.r, {}, c.probes)
    [] op = "copy"  -> Step(st, c.r, st[c.s], c.probes)
    [] op = "ior"   -> Step(st, c.r, st[c.r] \cup st[c.s], c.probes)
    [] op = "isub"  -> Step(st, c.r, st[c.r] \ st[c.s], c.probes)
    [] op = "or"    -> Step(st, c.t, st[c.r] \cup st[c.s], c.probes)
    [] op = "sub"   -> Step(st, c.t, st[c.r] \ st[c.s], c.probes)

-----------------------------------------------------------------------------
(* commands for generated histories *)
Reg == 1..R
\* ids at the edges of storage blocks, so that every alignment occurs
Make(r, S, P) == [op |-> "make", r |-> r, ids |-> Sorted(S), probes |-> P]
Cmds2(RS, P) == {[op |-> o, r |-> r, s |-> s, probes |-> P] : o \in {"ior", "isub", "copy"}, r \in RS, s \in RS}
Cmds3(RS, P) == {[op |-> o, r |-> r, s |-> s, t |-> t, probes |-> P] : o \in {"or", "sub"}, r \in RS, s \in RS, t \in RS}
CmdSet(RS, U, P) == {[op |-> "set", r |-> r, i |-> i, probes |-> P] : r \in RS, i \in U}
CmdClear(RS, P) == {[op |-> "clear", r |-> r, probes |-> P] : r \in RS}

(* laws of the abstract sets, checked on every reachable bank *)
Laws(st) == \A a, b \in Reg :
   /\ (Order(st[a], st[b]) = "eq") = (st[a] = st[b])
   /\ (st[a] \ st[b]) \cup (st[b]) = st[a] \cup st[b]
   /\ Cardinality(st[a] \cup st[b]) + Cardinality(st[a] \cap st[b]) = Cardinality(st[a]) + Cardinality(st[b])
=============================================================================
