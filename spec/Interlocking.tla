---------------------------- MODULE Interlocking ----------------------------
(* Interlocking routes (P07 - P10, P12): the drives from one stop location to *)
(* the next, what they contain, where they are listed, and which of them      *)
(* exclude each other.  A route is <<station routes, from, to>>: it runs from *)
(* node `from` of the first station route to node `to - 1` of the last, node  *)
(* indices counting from 0, station routes from 1.                            *)
EXTENDS Routes

SuccOf(T) == LET S == Succ(T) IN [k \in DOMAIN T.P.routes |-> {j \in DOMAIN T.P.routes : <<k, j>> \in S}]
DeriveNet(P) ==
  LET T == DeriveRoutes(P)
      s == SuccOf(T) IN
  T @@ [succ |-> s, pred |-> [k \in DOMAIN s |-> {j \in DOMAIN s : k \in s[j]}]]

HasMs(T, k) == T.R[k].ms # <<>>
FirstMs(T, k) == T.R[k].ms[1]
LastMs(T, k) == T.R[k].ms[Len(T.R[k].ms)]
Size(T, k) == Len(T.R[k].path)

\* a drive that has entered its last station route c[Len(c)] goes on until a main
\* signal or the end of the network; trains that need another control system aside
RECURSIVE Grow(_, _)
Grow(T, c) ==
  LET k == c[Len(c)] IN
  IF T.R[k].etcs THEN {}
  ELSE IF HasMs(T, k) \/ T.succ[k] = {} THEN {c}
  ELSE UNION {Grow(T, Append(c, j)) : j \in T.succ[k]}
Across(T, k) ==   \* drives that start in k and leave it
  IF T.R[k].etcs \/ ~(HasMs(T, k) \/ T.pred[k] = {}) THEN {}
  ELSE LET from == IF HasMs(T, k) THEN LastMs(T, k) ELSE 0 IN
       { <<c, from, IF HasMs(T, c[Len(c)]) THEN FirstMs(T, c[Len(c)]) + 1 ELSE Size(T, c[Len(c)])>>
         : c \in UNION {Grow(T, <<k, j>>) : j \in T.succ[k]} }
Inside(T, k) == { <<<<k>>, T.R[k].ms[i], T.R[k].ms[i + 1] + 1>> : i \in 1..(Len(T.R[k].ms) - 1) }
Leading(T, k) == IF HasMs(T, k) /\ T.pred[k] = {} THEN { <<<<k>>, 0, FirstMs(T, k) + 1>> } ELSE {}
Trailing(T, k) == IF HasMs(T, k) /\ T.succ[k] = {} THEN { <<<<k>>, LastMs(T, k), Size(T, k)>> } ELSE {}
Alone(T, k) == IF ~HasMs(T, k) /\ T.pred[k] = {} /\ T.succ[k] = {} THEN { <<<<k>>, 0, Size(T, k)>> } ELSE {}

InOne(T, k) == Inside(T, k) \cup Leading(T, k) \cup Trailing(T, k)
Drives(T) == UNION {Across(T, k) : k \in DOMAIN T.R} \cup
             UNION {Inside(T, k) \cup {d \in InOne(T, k) : d[3] - d[2] > 1 /\ ~T.R[k].etcs} : k \in DOMAIN T.R}
\* left open: drives without movement, drives from or to the end of the network that stay
\* within a station route only other trains may use, and a station route that is a network
\* of its own without a signal
Optional(T) == UNION {InOne(T, k) \cup Alone(T, k) : k \in DOMAIN T.R}

Faults07(T, I) ==
  LET got == Rng(I)
      all == Drives(T) IN
  {<<"missing", d>> : d \in all \ got} \cup {<<"not a drive", d>> : d \in got \ (all \cup Optional(T))}
  \cup {<<"twice", I[i]>> : i \in {j \in DOMAIN I : \E k \in 1..(j - 1) : I[k] = I[j]}}

-----------------------------------------------------------------------------
(* P08: the nodes of a route, as <<station route, index>> *)
Piece(k, a, b) == [i \in 1..(b - a) |-> <<k, a + i - 1>>]
PieceOf(T, r, j) ==   \* <<station route, from, to>> of the j-th piece
  <<r[1][j], IF j = 1 THEN r[2] ELSE 0, IF j = Len(r[1]) THEN r[3] ELSE Size(T, r[1][j])>>
NodesOf(T, r) == FoldSeq(LAMBDA j, acc : LET p == PieceOf(T, r, j) IN acc \o Piece(p[1], p[2], p[3]), <<>>,
                         [j \in 1..Len(r[1]) |-> j])
Elem(T, n) == T.R[n[1]].path[n[2] + 1]

WalkFaults(T, want, got) ==   \* got: <<element, omitted, limit>> per node
  IF Len(want) # Len(got) THEN {<<"length", Len(want), Len(got)>>}
  ELSE {<<"node", i, Expect(T, want[i][1], want[i][2])>> :
          i \in {j \in DOMAIN want : Expect(T, want[j][1], want[j][2]) # <<got[j][1], got[j][2]>>}}
       \cup {<<"limit", i, MayLimit(T, want[i][1], want[i][2])>> :
          i \in {j \in DOMAIN want : got[j][3] \notin MayLimit(T, want[j][1], want[j][2])}}

\* the part from node (k1, i1) up to, not including, node (k2, i2)
Part(ns, a, b) == SelectSeq([i \in DOMAIN ns |-> <<i, ns[i]>>], LAMBDA x : x[1] >= a /\ x[1] < b)
PosIn(ns, k, i) == LET S == {j \in DOMAIN ns : ns[j] = <<k, i>>} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
\* `to` positions may be one past the last node of a piece
ToPos(ns, k, i) == IF i = 0 THEN PosIn(ns, k, 0) ELSE PosIn(ns, k, i - 1) + 1
Sub(ns, a, b) == IF a < b THEN SubSeq(ns, a, b - 1) ELSE <<>>

RouteRecord(T, r) ==
  LET ns == NodesOf(T, r)
      f == Elem(T, ns[1])
      l == Elem(T, ns[Len(ns)]) IN
  [ size |-> Len(ns), first |-> f, last |-> l, srs |-> r[1],
    ends |-> <<r[1][1], r[1][1], r[1][1], r[1][1], r[1][Len(r[1])], r[1][Len(r[1])]>>,
    ms |-> <<T.kind[f] = "ms", T.kind[l] = "ms", f \in DOMAIN T.kinds, l \in DOMAIN T.kinds>> ]

-----------------------------------------------------------------------------
(* P09: ids[k][i + 1] is the id the library uses for node i of station route k *)
StartId(ids, r) == ids[r[1][1]][r[2] + 1]
EndId(ids, r) == ids[r[1][Len(r[1])]][r[3]]
Within(T, r, k, i) == \E j \in 1..Len(r[1]) : LET p == PieceOf(T, r, j) IN p[1] = k /\ p[2] <= i /\ i < p[3]
HaltsOf(T, k) == {i \in {IndexOf(T.R[k].path, T.P.routes[k].pass), IndexOf(T.R[k].path, T.P.routes[k].freight)} : i >= 0}
Index(T, I, ids) ==
  [ start |-> {<<StartId(ids, I[i]), i>> : i \in DOMAIN I},
    end |-> {<<EndId(ids, I[i]), i>> : i \in DOMAIN I},
    halt |-> UNION {UNION {{<<ids[k][h + 1], i>> : h \in {x \in HaltsOf(T, k) : Within(T, I[i], k, x)}} : k \in Rng(I[i][1])} : i \in DOMAIN I},
    sr |-> UNION {{<<k, i>> : k \in Rng(I[i][1])} : i \in DOMAIN I},
    st |-> UNION {{<<T.P.routes[k].st, i>> : k \in Rng(I[i][1])} : i \in DOMAIN I} ]
Pairs(x) == UNION {{<<x[i][1], x[i][2][j]>> : j \in DOMAIN x[i][2]} : i \in DOMAIN x}
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
NotDecreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
IndexFaults(T, I, ids, got) ==
  LET want == Index(T, I, ids) IN
  UNION {{<<f, "missing", p>> : p \in want[f] \ Pairs(got[f])} \cup {<<f, "wrong", p>> : p \in Pairs(got[f]) \ want[f]}
         \cup {<<f, "order", got[f][i][1]>> : i \in {j \in DOMAIN got[f] :
                  IF f = "halt" THEN ~NotDecreasing(got[f][j][2]) ELSE ~Increasing(got[f][j][2])}}
         : f \in {"start", "end", "halt", "sr", "st"}}

-----------------------------------------------------------------------------
(* P10: the places a route needs for itself *)
Exclusive(T, e) == e \in DOMAIN T.kind /\ T.kind[e] \in {"simple_switch", "cross", "ms", "hlt", "border", "bumper", "track_end"}
\* in every section it runs over, from where it enters (or starts) to where it leaves (or ends)
Needs(T, r) ==
  LET ns == NodesOf(T, r)
      f == Elem(T, ns[1])
      l == Elem(T, ns[Len(ns)])
      mid(e) == e \notin DOMAIN T.kinds
      used == {T.R[ns[i][1]].on[ns[i][2] + 1] : i \in {j \in DOMAIN ns : mid(Elem(T, ns[j]))}}
      at(o, e, else) == IF mid(e) /\ \E i \in DOMAIN o : o[i] = e THEN CHOOSE i \in DOMAIN o : o[i] = e ELSE else IN
  UNION {LET o == T.all[x] IN {e \in Rng(SubSeq(o, at(o, f, 1), at(o, l, Len(o)))) : Exclusive(T, e)} : x \in used}
Open(T, r) == LET ns == NodesOf(T, r) IN Needs(T, r) \ {Elem(T, ns[1]), Elem(T, ns[Len(ns)])}
\* for every route those that compete with it for a place; a route that merely ends
\* where another begins is no competitor
Conflicts(T, I, ids) ==
  LET need == TLCEval([i \in DOMAIN I |-> Needs(T, I[i])])
      users == TLCEval([x \in UNION {need[i] : i \in DOMAIN I} |-> {i \in DOMAIN I : x \in need[i]}])
      s == TLCEval([i \in DOMAIN I |-> StartId(ids, I[i])])
      e == TLCEval([i \in DOMAIN I |-> EndId(ids, I[i])]) IN
  TLCEval([i \in DOMAIN I |-> {j \in UNION {users[x] : x \in need[i]} : e[i] # s[j] /\ e[j] # s[i]}])

\* the lists per route reported by the implementation
ListFaults(I, what, got, Want(_)) ==
  IF Len(got) # Len(I) THEN {<<what, "number", Len(I)>>}
  ELSE UNION {LET w == TLCEval(Want(i)) IN
              {<<what, i, "missing", x>> : x \in w \ Rng(got[i])} \cup {<<what, i, "wrong", x>> : x \in Rng(got[i]) \ w}
              \cup (IF Len(got[i]) = Cardinality(Rng(got[i])) THEN {} ELSE {<<what, i, "repeated">>}) : i \in DOMAIN I}

-----------------------------------------------------------------------------
(* P12: groups are given as sets; they are listed in order, members in order *)
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
             ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lex(Tail(a), Tail(b))
GroupFaults(given, got, of, n) ==
  LET sets(x) == {<<Rng(x[i]), Cardinality({j \in DOMAIN x : Rng(x[j]) = Rng(x[i])})>> : i \in DOMAIN x} IN
  {<<"group lost", g>> : g \in sets(given) \ sets(got)} \cup {<<"group invented", g>> : g \in sets(got) \ sets(given)}
  \cup {<<"members not in order", i>> : i \in {j \in DOMAIN got : ~Increasing(got[j])}}
  \cup {<<"groups not in order", i>> : i \in {j \in 1..(Len(got) - 1) : ~Lex(got[j], got[j + 1])}}
  \cup (IF Len(of) # n THEN {<<"routes", n>>} ELSE
        {<<"groups of route", i>> : i \in {j \in 1..n : ~(Increasing(of[j]) /\ Rng(of[j]) = {g - 1 : g \in {h \in DOMAIN got : (j - 1) \in Rng(got[h])}})}})

-----------------------------------------------------------------------------
ApplyNet(op, ev, T) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> DeriveNet(ev.plan)]}
    [] op = "loads" -> Judge(ev, <<"ok">>, T)
    \* what the library calls its routes and nodes; used to read its later answers
    [] op = "names" -> {[res |-> <<"ok">>, st |-> T @@ [I |-> ev.irs, ids |-> ev.ids]]}
    [] op = "drives" -> Judge(ev, Verdict(Faults07(T, T.I)), T)
    [] op = "dense" -> Judge(ev, [i \in DOMAIN T.I |-> i - 1], T)
    [] op = "records" -> Judge(ev, RecsRes(ev, [i \in DOMAIN T.I |-> RouteRecord(T, T.I[i])]), T)
    [] op = "walks" -> Judge(ev, Verdict(UNION {WalkFaults(T, NodesOf(T, T.I[q[1]]), q[2]) : q \in Rng(ev.q)}), T)
    [] op = "pieces" -> Judge(ev, SeqRes(ev, [i \in DOMAIN ev.q |-> [j \in 1..Len(T.I[ev.q[i]][1]) |-> PieceOf(T, T.I[ev.q[i]], j)]]), T)
    \* <<route, <<k1, i1>>, <<k2, i2>>, from, to, from_to>>
    [] op = "parts" -> Judge(ev, Verdict(UNION {
          LET ns == NodesOf(T, T.I[q[1]])
              a == PosIn(ns, q[2][1], q[2][2])
              b == ToPos(ns, q[3][1], q[3][2]) IN
          WalkFaults(T, Sub(ns, a, Len(ns) + 1), q[4]) \cup WalkFaults(T, Sub(ns, 1, b), q[5]) \cup WalkFaults(T, Sub(ns, a, b), q[6])
          : q \in Rng(ev.q)}), T)
    [] op = "contains" -> Judge(ev, SeqRes(ev, [i \in DOMAIN ev.q |->
          [j \in 1..Size(T, ev.q[i][2]) |-> Within(T, T.I[ev.q[i][1]], ev.q[i][2], j - 1)]]), T)
    [] op = "follows" -> Judge(ev, SeqRes(ev, [i \in DOMAIN ev.q |->
          <<StartId(T.ids, T.I[ev.q[i][1]]) = EndId(T.ids, T.I[ev.q[i][2]]), ev.q[i][1] = ev.q[i][2]>>]), T)
    [] op = "indexes" -> Judge(ev, Verdict(IndexFaults(T, T.I, T.ids, ev.got)), T)
    [] op = "closed" -> Judge(ev, Verdict(ListFaults(T.I, "closed", ev.got, LAMBDA i : Needs(T, T.I[i]))), T)
    [] op = "open" -> Judge(ev, Verdict(ListFaults(T.I, "open", ev.got, LAMBDA i : Open(T, T.I[i]))), T)
    [] op = "conflicts" -> LET C == Conflicts(T, T.I, T.ids) IN
          Judge(ev, Verdict(ListFaults(T.I, "excluded", ev.got, LAMBDA i : C[i])), T)
    \* the exported file has a line for every route: the competing routes that come before it
    [] op = "exported" -> LET C == Conflicts(T, T.I, T.ids) IN
          Judge(ev, Verdict(ListFaults(T.I, "exported", ev.got, LAMBDA i : {j \in C[i] : j < i})), T)
    \* without a directory to read or a file to write, nothing is exported
    [] op = "refused" -> Judge(ev, IF ev.written THEN <<"something was written">> ELSE <<"failed">>, T)
    [] op = "groups" -> Judge(ev, Verdict(GroupFaults(ev.given, ev.got, ev.of, ev.n)), T)
    [] op = "fair" -> LET C == Conflicts(T, T.I, T.ids) IN   \* the groups given were groups of conflicts
          Judge(ev, Verdict({<<"no conflict", p>> : p \in {q \in UNION {{<<a + 1, b + 1>> : <<a, b>> \in Rng(g) \X Rng(g)} : g \in Rng(ev.given)} : q[2] \notin C[q[1]]}}), T)
=============================================================================
