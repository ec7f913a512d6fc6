------------------------------- MODULE OsmMap -------------------------------
(* The map of an infrastructure the web server draws its tiles from (P45).    *)
(* The infrastructure M:                                                      *)
(*   els       <<[t, pos, rising, st, neigh], ...>>                           *)
(*   stations  <<[name, pos], ...>>                                           *)
(* Ids count from 0; places are <<longitude, latitude>> in 1/10^7 degree.     *)
(* The map: nodes <<<<id, longitude, latitude, tags, kind>>, ...>>, ways      *)
(* <<<<id, <<node, ...>>, tags>>, ...>>, tags <<<<key, value>>, ...>> by key. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Rng(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Str(x) == ToString(x)
Els(M) == 0..(Len(M.els) - 1)
Pairs(M) == UNION {{{a, b} : b \in Rng(M.els[a + 1].neigh) \ {a}} : a \in Els(M)}
Far(M, p) == \E a, b \in p : M.els[a + 1].st # M.els[b + 1].st

ElementTags(M, e) == << <<"direction", IF M.els[e + 1].rising THEN "rising" ELSE "falling">>, <<"id", Str(e)>>, <<"subtype", M.els[e + 1].t>>,
                        <<"type", "element">> >>
StationTags(M, s) == << <<"id", Str(s)>>, <<"name", M.stations[s + 1].name>>, <<"type", "station">> >>
Between == << <<"type", "interpolation">> >>
Rail == << <<"railway", "rail">> >>

\* what every station and element is drawn as: <<place, tags>>
Drawn(M) == {<<M.els[e + 1].pos, ElementTags(M, e)>> : e \in Els(M)} \cup {<<M.stations[s].pos, StationTags(M, s - 1)>> : s \in DOMAIN M.stations}

-----------------------------------------------------------------------------
\* the rest of a chain of points, from a node over a point to the first node that is none
RECURSIVE Chain(_, _, _, _)
Chain(adj, points, from, n) ==
  IF n \notin points THEN <<n>>
  ELSE LET on == adj[n] \ {from} IN
       IF Cardinality(on) # 1 THEN <<n, 0 - 1>> ELSE <<n>> \o Chain(adj, points, n, CHOOSE x \in on : TRUE)
\* points between two places lie near them, one soon after the other
Smooth(a, b, ps) ==
  LET spread == Abs(a[1] - b[1]) + Abs(a[2] - b[2]) + 100
      all == <<a>> \o ps \o <<b>>
      near(x, p, q) == Min({p, q}) - spread <= x /\ x <= Max({p, q}) + spread IN
  /\ \A i \in DOMAIN ps : near(ps[i][1], a[1], b[1]) /\ near(ps[i][2], a[2], b[2])
  /\ \A i \in 1..(Len(all) - 1) : Abs(all[i][1] - all[i + 1][1]) <= spread \div 5 /\ Abs(all[i][2] - all[i + 1][2]) <= spread \div 5

MapFaults(M, got) ==
  IF ~got.ok THEN {<<"no map">>}
  ELSE
  LET ids == {n[1] : n \in Rng(got.nodes)}
      pos == TLCEval([i \in ids |-> LET n == CHOOSE x \in Rng(got.nodes) : x[1] = i IN <<n[2], n[3]>>])
      points == {n[1] : n \in {x \in Rng(got.nodes) : x[4] = Between}}
      things == {n \in Rng(got.nodes) : n[1] \notin points}
      drawn == {<<<<n[2], n[3]>>, n[4]>> : n \in things}
      want == Drawn(M)
      misused == {w[1] : w \in {x \in Rng(got.ways) : Len(x[2]) # 2 \/ ~(Rng(x[2]) \subseteq ids) \/ x[3] # Rail}}
      known == /\ Cardinality(ids) = Len(got.nodes)
               /\ Cardinality({w[1] : w \in Rng(got.ways)}) = Len(got.ways)
               /\ \A n \in Rng(got.nodes) : n[5] = "node" IN
  IF ~known THEN {<<"ids are not unique">>}
  ELSE IF misused # {} THEN {<<"way", w>> : w \in misused}
  ELSE IF drawn # want \/ Cardinality(things) # Len(M.els) + Len(M.stations)
       THEN {<<"not drawn", x>> : x \in want \ drawn} \cup {<<"drawn", x>> : x \in drawn \ want} \cup {<<"drawn", Cardinality(things)>>}
  ELSE
  LET edges == [i \in DOMAIN got.ways |-> Rng(got.ways[i][2])]
      plain == {i \in DOMAIN edges : edges[i] \cap points = {}}
      adj == TLCEval([p \in points |-> UNION {edges[i] : i \in {j \in DOMAIN edges : p \in edges[j]}} \ {p}])
      ends == {<<n, p>> : <<n, p>> \in UNION {{<<n, p>> : n \in adj[p] \ points} : p \in points}}
      chains == TLCEval({<<x[1]>> \o Chain(adj, points, x[1], x[2]) : x \in ends})
      last(c) == c[Len(c)]
      joined == {<<c[1], last(c)>> : c \in chains}
      near == {p \in Pairs(M) : ~Far(M, p)}
      far == {p \in Pairs(M) : Far(M, p)} IN
  {<<"not joined", p>> : p \in near \ {edges[i] : i \in plain}} \cup {<<"joined", edges[i]>> : i \in {j \in plain : edges[j] \notin near}}
  \cup (IF Cardinality(plain) = Cardinality(near) THEN {} ELSE {<<"joined twice">>})
  \cup {<<"not joined", p>> : p \in far \ {Rng(j) : j \in joined}} \cup {<<"joined", j>> : j \in {x \in joined : Rng(x) \notin far}}
  \cup (IF Cardinality(chains) = 2 * Cardinality(far) THEN {} ELSE {<<"chains", Cardinality(chains), Cardinality(far)>>})
  \cup (IF points \subseteq UNION {Rng(c) : c \in chains} /\ Len(got.ways) - Cardinality(plain) = Cardinality(points) + Cardinality(far) THEN {} ELSE {<<"points apart">>})
  \cup {<<"odd chain", c>> : c \in {x \in chains : last(x) \in ids /\ ~Smooth(pos[x[1]], pos[last(x)], [i \in 1..(Len(x) - 2) |-> pos[x[i + 1]]])}}

Verdict(F) == IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>
Init0 == <<>>
Apply(op, ev, M) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> ev.m]}
    [] op = "map" -> {[res |-> Verdict(MapFaults(M, ev.got)), st |-> M]}
    [] op = "serves" -> {[res |-> <<"ok">>, st |-> M]}
=============================================================================
