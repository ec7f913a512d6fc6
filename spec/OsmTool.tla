------------------------------ MODULE OsmTool ------------------------------
(* The program that puts the data of the railway on the lines OpenStreetMap  *)
(* knows (tools/generate-osm).                                               *)
(*                                                                            *)
(* The input is a map - nodes with a place (x, m) and tags, ways, relations - *)
(* and the railway's data: stations with sections of lines, with elements at  *)
(* a kilometrage. The main track of a line is straight: its nodes differ in m *)
(* only, and the kilometrage of an element is given as the x of the track and *)
(* the m it stands for. Identifiers from New on are those of new nodes.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

New == 1000000000

Value(ts, k) == LET s == SelectSeq(ts, LAMBDA t : t[1] = k) IN IF s = <<>> THEN "" ELSE s[1][2]
HasTag(ts, k) == \E i \in 1..Len(ts) : ts[i][1] = k
Digit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(s) == Len(s) = 4 /\ \A i \in 1..4 : Digit(SubSeq(s, i, i))
RECURSIVE Stripped(_)
Stripped(s) == IF Len(s) = 0 THEN "" ELSE (IF SubSeq(s, 1, 1) = " " THEN "" ELSE SubSeq(s, 1, 1)) \o Stripped(SubSeq(s, 2, Len(s)))

---------------------------------------------------------------------------
(* the lines of the map *)
IsLine(r) == Value(r.tags, "route") \in {"tracks", "railway"} /\ IsNumber(Value(r.tags, "ref"))
LineRels(in) == SelectSeq(in.rels, IsLine)
Lines(in) == {Value(r.tags, "ref") : r \in ToSet(LineRels(in))}
WayIds(in, l) == UNION {ToSet(r.ways) : r \in {q \in ToSet(LineRels(in)) : Value(q.tags, "ref") = l}}
WaysOf(in, l) == SelectSeq(in.ways, LAMBDA w : w.id \in WayIds(in, l))
NodeIds(in, l) == UNION {ToSet(w.nd) : w \in ToSet(WaysOf(in, l))}
NodesOf(in, l) == SelectSeq(in.nodes, LAMBDA n : n.id \in NodeIds(in, l))

(* a node at which two ways meet; one that ends where the other starts        *)
Touching(ws, i) == SelectSeq(ws, LAMBDA w : i \in ToSet(w.nd))
First(w) == w.nd[1]
Last_(w) == w.nd[Len(w.nd)]
Through(ws, i) == LET t == Touching(ws, i) IN
    Len(t) = 1 \/ (Len(t) = 2 /\ ((First(t[1]) = i /\ Last_(t[2]) = i) \/ (First(t[2]) = i /\ Last_(t[1]) = i)))
Inner(ws, i) == Len(Touching(ws, i)) = 1

---------------------------------------------------------------------------
(* the railway's data *)
Knots(in, l) == FlattenSeq([f \in 1..Len(in.files) |-> FlattenSeq([s \in 1..Len(in.files[f]) |->
    FlattenSeq([a \in 1..Len(in.files[f][s].sections) |-> LET x == in.files[f][s].sections[a] IN IF x.line = l THEN x.knots ELSE <<>>])])])
Elements(in, l) == FlattenSeq(Knots(in, l))

Direction(e) == IF e.dir = "F" THEN <<"direction", "falling">> ELSE <<"direction", "rising">>
Sub(s) == <<<<"type", "element">>, <<"subtype", s>>>>
Tags(e) ==
    CASE e.kind \in {"ms", "ps", "as"} -> Sub(e.kind) \o <<Direction(e), <<"id", e.name>>>>
      [] e.kind \in {"gz", "rz"} -> Sub("hlt") \o <<Direction(e), <<"id", e.name>>>>
      [] e.kind = "spl" -> Sub("spl") \o <<Direction(e), <<"speed", e.a>>>>
      [] e.kind \in {"eotd1", "eotd2"} -> Sub("eotd") \o <<Direction(e)>>
      [] e.kind \in {"border", "bumper", "km_jump", "line_switch"} -> Sub(e.kind)
      [] e.kind \in {"tunnel", "track_end", "simple_switch", "cross"} -> Sub(e.kind) \o <<<<"id", e.name>>>>
      [] e.kind = "slope" -> Sub("slope") \o <<<<"rising", e.a>>, <<"falling", e.b>>>>
Shown(e) == e.kind \notin {"km_jump_end", "line_switch_1", "cross_end", "stem", "left", "right"}

(* the nodes of the map that show an element already *)
Same(ns, e) ==
    CASE e.kind = "ms" -> SelectSeq(ns, LAMBDA n : Value(n.tags, "railway") = "signal" /\ Stripped(Value(n.tags, "ref")) = e.name)
      [] e.kind \in {"simple_switch", "stem", "left", "right"} ->
            SelectSeq(ns, LAMBDA n : Value(n.tags, "railway") = "switch" /\ e.name \in {Value(n.tags, "ref"), Value(n.tags, "name")})
      [] OTHER -> <<>>
IsAnchor(ns, e) == LET s == Same(ns, e) IN IF e.kind = "ms" THEN Len(s) = 1 ELSE Len(s) >= 1
IsEnd(e) == e.kind \in {"stem", "left", "right"}

(* what the place of another element can be told from: where the place of an  *)
(* element is known, and the tracks lead on from there                        *)
Known(ns, es) == {i \in 1..Len(es) : IsAnchor(ns, es[i])}
Useful(ns, ws, e) == IF e.kind = "ms" THEN Inner(ws, Same(ns, e)[1].id) ELSE Through(ws, Same(ns, e)[1].id)

(* the nodes at m, or next to it on either side *)
Near(ns, m) == LET ms == {ns[i].m : i \in 1..Len(ns)} IN
    IF m \in ms THEN {m}
    ELSE {x \in ms : (x < m /\ \A y \in ms : y < m => y <= x) \/ (x > m /\ \A y \in ms : y > m => y >= x)}

(* what is expected of a line: of every element its tags and the places it    *)
(* may be given                                                               *)
Expected(in, l) ==
    LET ns == TLCEval(NodesOf(in, l))
        ws == TLCEval(WaysOf(in, l))
        es == TLCEval(Elements(in, l))
        known == TLCEval(Known(ns, es))
        places == {es[i].m : i \in known}
        useful == {es[i].m : i \in {j \in known : Useful(ns, ws, es[j])}}
        Placed(i) == \/ i \in known /\ ~IsEnd(es[i])
                     \/ i \notin known /\ Shown(es[i]) /\ Cardinality(places) >= 2 /\ (es[i].m \in places \/ Cardinality(useful) >= 2)
        At(i) == IF i \in known THEN {Same(ns, es[i])[1].m} ELSE Near(SelectSeq(ns, LAMBDA n : n.x = es[i].x), es[i].m)
    IN  [ns |-> ns, ws |-> ws,
         elements |-> SetToSeq({[i |-> i, tags |-> Tags(es[i]), at |-> At(i), e |-> es[i],
                                 osm |-> IF i \in known THEN Same(ns, es[i])[1].id ELSE 0] : i \in {j \in 1..Len(es) : Placed(j)}})]

---------------------------------------------------------------------------
(* stations *)
IsPlace(n) == /\ Value(n.tags, "railway") \in {"station", "halt", "facility"} /\ HasTag(n.tags, "name")
              /\ Value(n.tags, "subway") # "yes" /\ Value(n.tags, "monorail") # "yes"
IsStation(n) == IsPlace(n) /\ Value(n.tags, "railway") \in {"station", "halt"}

---------------------------------------------------------------------------
(* the result *)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i].id < s[i + 1].id
IsNew(i) == i >= New
Old(nd) == SelectSeq(nd, LAMBDA i : ~IsNew(i))
ById(s) == [i \in {s[k].id : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].id = i]]

(* every new node of a way is where the known node before or behind it is     *)
Beside(nd, at) == \A k \in 1..Len(nd) : IsNew(nd[k]) =>
    LET before == {j \in 1..(k - 1) : ~IsNew(nd[j])}
        behind == {j \in (k + 1)..Len(nd) : ~IsNew(nd[j])}
    IN  \E j \in (IF before = {} THEN {} ELSE {Max(before)}) \cup (IF behind = {} THEN {} ELSE {Min(behind)}) : at[nd[j]] = at[nd[k]]

LineRight(in, out, l, nodes, ways) ==
    LET x == TLCEval(Expected(in, l))
        mine == {w.id : w \in ToSet(x.ws)}
        got == UNION {{i \in ToSet(ways[w].nd) : IsNew(i)} : w \in mine}
        m == [i \in DOMAIN nodes |-> nodes[i].m]
        at == TLCEval([i \in DOMAIN nodes |-> <<nodes[i].x, nodes[i].m>>])
        kinds == {e.tags : e \in ToSet(x.elements)} \cup {nodes[i].tags : i \in got}
        Want(t) == {k \in 1..Len(x.elements) : x.elements[k].tags = t}
        Have(t) == {i \in got : nodes[i].tags = t}
    IN  /\ mine \subseteq DOMAIN ways
        /\ \A w \in ToSet(x.ws) : Old(ways[w.id].nd) = w.nd /\ ways[w.id].tags = w.tags
        /\ \A i \in UNION {ToSet(ways[w].nd) : w \in mine} : i \in DOMAIN nodes
        /\ \A w \in mine : Beside(ways[w].nd, at)
        \* a node that is new is in every way its neighbour of old is in
        /\ \A i \in got : {w \in mine : i \in ToSet(ways[w].nd)} \in
                {{w.id : w \in ToSet(Touching(x.ws, n.id))} : n \in {q \in ToSet(x.ns) : <<q.x, q.m>> = at[i]}}
        /\ \A w \in mine : \A a, b \in 1..Len(ways[w].nd) : (a # b /\ IsNew(ways[w].nd[a])) => ways[w].nd[a] # ways[w].nd[b]
        /\ \A t \in kinds :
            LET want == SortSeq(SetToSeq(Want(t)), LAMBDA a, b : x.elements[a].e.m < x.elements[b].e.m)
                have == SortSeq(SetToSeq(Have(t)), LAMBDA a, b : m[a] < m[b])
            IN  Len(want) = Len(have) /\ \A k \in 1..Len(want) : m[have[k]] \in x.elements[want[k]].at /\ nodes[have[k]].x = x.elements[want[k]].e.x
        \* one colour
        /\ \A w \in mine : Len(ways[w].colours) = 1 /\ ways[w].bright /\ \A v \in mine : ways[v].colours = ways[w].colours

Signals(in, l) == {e \in ToSet(Expected(in, l).elements) : e.e.kind = "ms"}

Lists(in, out, nodes) ==
    LET new == {i \in DOMAIN nodes : IsNew(i)}
        Entry(i) == [id |-> i, name |-> Value(nodes[i].tags, "id"), x |-> nodes[i].x, m |-> nodes[i].m]
        Of(kinds) == {Entry(i) : i \in {j \in new : Value(nodes[j].tags, "subtype") \in kinds}}
        ms == UNION {Signals(in, l) : l \in Lines(in)}
        \* a signal that was on the map is listed as the node that was there
        where == {[id |-> e.osm, name |-> e.e.name, x |-> nodes[e.osm].x, m |-> nodes[e.osm].m] : e \in {q \in ms : q.osm # 0}}
        guessed == {e.e.name : e \in {q \in ms : q.osm = 0}}
    IN  /\ ToSet(out.halts) = Of({"hlt"})
        /\ ToSet(out.other_signals) = Of({"ps", "as"})
        /\ ToSet(out.main_signals) = where \cup {n \in Of({"ms"}) : n.name \in guessed}
        /\ ToSet(out.stations) = {[id |-> n.id, name |-> Value(n.tags, "name"), x |-> n.x, m |-> n.m] : n \in {q \in ToSet(in.nodes) : IsStation(q)}}

Right(in, out) ==
    LET nodes == TLCEval(ById(out.nodes))
        ways == TLCEval(ById(out.ways))
        lines == TLCEval(Lines(in))
        kept == UNION {NodeIds(in, l) : l \in lines} \cup {n.id : n \in {q \in ToSet(in.nodes) : IsPlace(q)}}
        all == UNION {ToSet(w.nd) : w \in ToSet(out.ways)}
    IN  /\ Sorted(out.nodes) /\ Sorted(out.ways) /\ Sorted(out.rels)
        /\ {i \in DOMAIN nodes : ~IsNew(i)} = kept
        /\ \A n \in ToSet(in.nodes) : n.id \in kept =>
                [nodes[n.id] EXCEPT !.tags = n.tags] = n /\ nodes[n.id].tags = n.tags \o (IF IsStation(n) THEN <<<<"type", "station">>>> ELSE <<>>)
        /\ \A i \in DOMAIN nodes : IsNew(i) => i \in all
        /\ DOMAIN ways = UNION {WayIds(in, l) : l \in lines}
        /\ ToSet(out.rels) = ToSet(LineRels(in))
        /\ \A l \in lines : LineRight(in, out, l, nodes, ways)
        /\ Lists(in, out, nodes)

(* the elements are added to what is given in addition, and nothing of it is lost *)
RightMore(in, out) ==
    LET nodes == TLCEval(ById(out.nodes))
        ways == TLCEval(ById(out.ways))
        lines == TLCEval(Lines(in))
        mine == UNION {WayIds(in, l) : l \in lines}
    IN  /\ Sorted(out.nodes) /\ Sorted(out.ways) /\ Sorted(out.rels)
        /\ {i \in DOMAIN nodes : ~IsNew(i)} = {n.id : n \in ToSet(in.nodes)}
        /\ \A n \in ToSet(in.nodes) :
                [nodes[n.id] EXCEPT !.tags = n.tags] = n /\ nodes[n.id].tags = n.tags \o (IF IsStation(n) THEN <<<<"type", "station">>>> ELSE <<>>)
        /\ DOMAIN ways = {w.id : w \in ToSet(in.ways)}
        /\ \A w \in ToSet(in.ways) : w.id \notin mine => ways[w.id].nd = w.nd /\ ways[w.id].tags = w.tags
        /\ ToSet(out.rels) = ToSet(in.rels)
        /\ \A l \in lines : LineRight(in, out, l, nodes, ways)
        /\ Lists(in, out, nodes)

(* without the railway's data: the lines as they are, in the order of their names *)
RightLines(in, out) ==
    /\ ToSet(out.nodes) = {n \in ToSet(in.nodes) : \E l \in Lines(in) : n.id \in NodeIds(in, l)}
    /\ LET plain == {[id |-> w.id, nd |-> w.nd, tags |-> w.tags] : w \in ToSet(out.ways)} IN
       plain = {w \in ToSet(in.ways) : \E l \in Lines(in) : w.id \in WayIds(in, l)}
    /\ Len(out.ways) = Cardinality({w.id : w \in ToSet(out.ways)})
    /\ ToSet(out.rels) = ToSet(LineRels(in))
    /\ \A l \in Lines(in) : \A v, w \in {q \in ToSet(out.ways) : q.id \in WayIds(in, l)} : Len(v.colours) = 1 /\ v.bright /\ v.colours = w.colours

---------------------------------------------------------------------------
Init0 == [lines |-> FALSE]
Fits(ev) == Len(ev.res) = 2 /\ (CASE ev.mode = "mdb" -> Right(ev, ev.res[2]) [] ev.mode = "add" -> RightMore(ev, ev.res[2]) [] OTHER -> RightLines(ev, ev.res[2]))
Apply(op, ev, st) ==
    CASE op = "new" -> {[res |-> <<"ok">>, st |-> Init0]}
      [] op = "generate" ->
            IF ev.mode = "no" /\ ~st.lines THEN {[res |-> <<"exc">>, st |-> st]}   \* there are no lines yet
            ELSE {[res |-> IF Fits(ev) THEN ev.res ELSE <<"ok", "what", "the input says">>, st |-> [lines |-> TRUE]]}
=============================================================================
