----------------------------- MODULE TrackFacts -----------------------------
(* What can be observed of a loaded track, as facts about a plan (P01 - P03). *)
EXTENDS TrackPlan

Init0 == <<>>

\* every element once, in its station, with one node per distinct way through it
NodeCount(kind) == CASE kind = "directed" -> 1 [] kind = "cross" -> 4 [] OTHER -> 2
Elements(T) ==
  UNION { {<<m[1], T.P.secs[s].st, IF DirOf(m[2]) = "U" THEN 2 ELSE 1, KindOf(m[2])>> : m \in Rng(T.P.secs[s].mids)}
          : s \in Tracks(T.P) }
  \cup {<<n.main, T.P.secs[s].st, NodeCount(T.kinds[n.main]), T.kinds[n.main]>> :
          <<s, n>> \in UNION {{<<s, T.P.secs[s].lo>>, <<s, T.P.secs[s].hi>>} : s \in Tracks(T.P)}}
  \cup {<<MetaId(x[1], x[2]), T.P.secs[x[1]].st, 1, "meta">> :
          x \in {y \in DOMAIN T.walk : NeedsMeta(T.P.secs[y[1]], y[2])}}

-----------------------------------------------------------------------------
(* P02 *)
\* neighbouring elements of the same walk, or on both sides of a border
Adjacent(T) ==
  UNION { {<<T.walk[x][i], T.walk[x][i + 1], T.kms[x][i], T.kms[x][i + 1]>> : i \in 1..(Len(T.walk[x]) - 1)}
          : x \in DOMAIN T.walk }
  \cup { LET x == T.at[<<b, "a">>]
             y == T.at[<<T.partner[b], "a">>] IN
         <<b, T.partner[b], T.kms[x][1], T.kms[y][1]>> : b \in {e \in DOMAIN T.partner : T.partner[e] # 0} }
Adjacency(T) == {<<a[1], a[2], TRUE, a[3], a[4], Abs(a[3] - a[4])>> : a \in Adjacent(T)}
Neighbourhood(T) == LET A == {<<a[1], a[2]>> : a \in Adjacent(T)} IN A \cup {<<a[2], a[1]>> : a \in A}

\* <<element, port, line, chainage, does the section reach it upwards>>
Ports(T) ==
  UNION { {<<T.P.secs[s].lo.main, Port[T.P.secs[s].lo.tag][2], T.P.secs[s].line, T.P.secs[s].lo.km, FALSE>>,
           <<T.P.secs[s].hi.main, Port[T.P.secs[s].hi.tag][2], T.P.secs[s].line, T.P.secs[s].hi.km, TRUE>>}
          : s \in Tracks(T.P) }
Directions(T) == UNION { {<<m[1], DirOf(m[2])>> : m \in {k \in Rng(T.P.secs[s].mids) : DirOf(k[2]) # "U"}} : s \in Tracks(T.P)}

WalkLength(T, x) == Sum([i \in 1..(Len(T.walk[x]) - 1) |-> Abs(T.kms[x][i + 1] - T.kms[x][i])])
Lengths(T) == [s \in Tracks(T.P) |->
  <<Abs(T.P.secs[s].hi.km - T.P.secs[s].lo.km), WalkLength(T, <<s, TRUE>>), WalkLength(T, <<s, FALSE>>)>>]

\* the stem side of a switch
StemSide(T, e) == LET x == T.at[<<e, "stem">>] IN {T.walk[x][2], T.walk[<<x[1], ~x[2]>>][Len(T.walk[<<x[1], ~x[2]>>]) - 1]}

\* ns[k] = <<id, element, next, branch, predecessors, way back>>, ids from 0; -1 for none
Succ(n) == {m \in {n[3], n[4]} : m >= 0}
MirrorFaults(T, ns) ==
  LET node(i) == ns[i + 1]
      ids == {k - 1 : k \in DOMAIN ns}
      fwd == {<<n[1], m>> : <<n, m>> \in UNION {{<<n, m>> : m \in Succ(n)} : n \in Rng(ns)}}
      bwd == UNION {{<<p, n[1]>> : p \in Rng(n[5])} : n \in Rng(ns)} IN
  {<<"id", k - 1>> : k \in {j \in DOMAIN ns : ns[j][1] # j - 1}}
  \cup {<<"not undone", e[1]>> : e \in fwd \ bwd}
  \cup {<<"no such step", e[1]>> : e \in bwd \ fwd}
  \cup {<<"listed twice", n[1]>> : n \in {m \in Rng(ns) : Len(m[5]) # Cardinality(Rng(m[5]))}}
  \cup {<<"way back", n[1]>> : n \in {m \in Rng(ns) :
          ~ CASE Len(m[5]) = 0 -> m[6] = 0 - 1
              [] Len(m[5]) = 1 -> m[6] = m[5][1]
              [] OTHER -> /\ m[6] \in Rng(m[5])
                          /\ IF m[2] \in DOMAIN T.kinds /\ T.kinds[m[2]] = "simple_switch"
                             THEN node(m[6])[2] \in StemSide(T, m[2])
                             ELSE node(m[6])[3] = m[1]}}

-----------------------------------------------------------------------------
(* P03 *)
SectionFacts(T) == [s \in Tracks(T.P) |->
  LET up == T.all[<<s, TRUE>>]
      down == T.all[<<s, FALSE>>] IN
  [ line |-> T.P.secs[s].line, size |-> Len(up), order |-> up, forder |-> down, riseall |-> up, fallall |-> down,
    rise |-> T.walk[<<s, TRUE>>], fall |-> T.walk[<<s, FALSE>>],
    ends |-> <<up[1], up[Len(up)], up[Len(up)], up[1]>> ]]
\* between two stations: an empty section per pair of borders
BorderSections(T) ==
  {<<T.P.secs[s].line, <<T.partner[T.P.secs[s].lo.main], T.P.secs[s].lo.main>>,
     <<T.P.secs[s].lo.main, T.partner[T.P.secs[s].lo.main]>> >> :
     s \in {t \in Tracks(T.P) : LET e == T.P.secs[t].lo.main IN T.kinds[e] = "border" /\ T.partner[e] # 0}}
Pos(s, e) == CHOOSE i \in DOMAIN s : s[i] = e
Slices(T, q) == [k \in DOMAIN q |->
  LET o == T.all[<<q[k][1], q[k][2]>>]
      i == Pos(o, q[k][3])
      j == Pos(o, q[k][4]) IN
  <<SubSeq(o, i, Len(o)), SubSeq(o, 1, i), SubSeq(o, i, j)>>]

Apply(op, ev, T) ==
  CASE op = "new" -> LET D == Derive(ev.plan) IN
                     {[res |-> <<"ok">>, st |-> IF Assert(Lawful(D), "the specification is unlawful") THEN D ELSE D]}
    [] op = "loads" -> Judge(ev, <<"ok">>, T)
    [] op = "passages" -> Judge(ev, SetRes(ev, Passages(T)), T)
    [] op = "elements" -> Judge(ev, SetRes(ev, Elements(T)), T)
    [] op = "adjacency" -> Judge(ev, SetRes(ev, Adjacency(T)), T)
    [] op = "neighbours" -> Judge(ev, SetRes(ev, Neighbourhood(T)), T)
    [] op = "ports" -> Judge(ev, SetRes(ev, Ports(T)), T)
    [] op = "directions" -> Judge(ev, SetRes(ev, Directions(T)), T)
    [] op = "lengths" -> Judge(ev, SeqRes(ev, Lengths(T)), T)
    [] op = "nodes" -> LET F == MirrorFaults(T, ev.ns) IN
                       Judge(ev, IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>, T)
    [] op = "sections" -> Judge(ev, SeqRes(ev, SectionFacts(T)), T)
    [] op = "border_sections" -> Judge(ev, SetRes(ev, BorderSections(T)), T)
    [] op = "slices" -> Judge(ev, SeqRes(ev, Slices(T, ev.q)), T)
=============================================================================
