------------------------------- MODULE Server -------------------------------
(* What the web server answers (P42), finds (P43) and shows of the planned    *)
(* order of trains (P44).                                                     *)
(* State: the books, one per infrastructure on offer:                         *)
(*   name                                                                     *)
(*   els       <<[t, pos, directed, km, rising, line, data], ...>>            *)
(*   stations  <<[name, full, els, routes <<<<name, id>>, ...>>, irs], ...>>  *)
(*   routes    <<[name, st, path <<element, ...>>], ...>>                     *)
(*   irs       <<[srs <<route, ...>>, from, to], ...>>                        *)
(*   sets      <<<<interlocking route, ...>>, ...>>                           *)
(*   tts       <<[name, from, to], ...>>   (times as texts)                   *)
(* Ids count from 0.  A place is <<longitude, latitude>> in 1/10^7 degree.    *)
(* A question: [kind, infra, args, target]; an answer: [status, flat, lists]: *)
(* the JSON with its keys sorted, its lists apart, fractions in 1/10^7.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Rng(s) == {s[i] : i \in DOMAIN s}
Str(x) == ToString(x)
\* n thousandths, in 1/10^7
Milli(n) == IF n = 0 THEN "0" ELSE Str(n) \o "0000"
Text(s) == "'" \o s
Bool(b) == IF b THEN "true" ELSE "false"
RECURSIVE Fields(_)
Fields(fs) == IF fs = <<>> THEN "" ELSE fs[1][1] \o "=" \o fs[1][2] \o ";" \o Fields(Tail(fs))
Object(fs) == "{" \o Fields(fs) \o "}"
Place(p) == Object(<< <<"lat", Str(p[2])>>, <<"lon", Str(p[1])>> >>)
\* the smallest box around places
Corners(ps) ==
  LET x == {p[1] : p \in ps}  y == {p[2] : p \in ps} IN
  << Place(<<Min(x), Min(y)>>), Place(<<Max(x), Max(y)>>) >>

-----------------------------------------------------------------------------
Names(B) == {b.name : b \in Rng(B)}
Book(B, n) == CHOOSE b \in Rng(B) : b.name = n
PosOf(b, e) == b.els[e + 1].pos
\* the elements an interlocking route passes, from its start to its end
RouteEls(b, r) ==
  LET n == Len(r.srs)
      part(i) == LET p == b.routes[r.srs[i] + 1].path IN
                 SubSeq(p, IF i = 1 THEN r.from + 1 ELSE 1, IF i = n THEN r.to ELSE Len(p)) IN
  FlattenSeq([i \in 1..n |-> part(i)])

-----------------------------------------------------------------------------
(* what is said of an element *)
Details(e) ==
  LET d == e.data IN
  CASE d.k = "eotd"   -> << <<"signal", Bool(d.signal)>> >>
    [] d.k = "slope"  -> << <<"falling", Milli(d.f)>>, <<"rising", Milli(d.r)>> >>
    [] d.k = "halt"   -> << <<"id_extern", Text(d.ext)>>, <<"id_op", Text(d.op)>>, <<"name", Text(d.name)>>, <<"passenger", Bool(d.pass)>> >>
    [] d.k = "spl"    -> (IF d.limit = 0 - 1 THEN <<>> ELSE << <<"limit", Milli(d.limit)>> >>)     \* the end of one says no speed
                        \o << <<"point_of_activation", Bool(d.poa = "signal")>> >>
    [] d.k = "ms"     -> << <<"name", Text(d.name)>> >>
    [] d.k = "switch" -> << <<"name", Text(d.name)>> >>
    [] OTHER          -> <<>>
Order == <<"falling", "id", "id_extern", "id_op", "kilometrage", "limit", "line", "name", "passenger", "point_of_activation", "rising", "signal">>
ElementText(i, e) ==
  LET fs == {<<"id", Str(i)>>} \cup Rng(Details(e))
            \cup (IF e.directed THEN {<<"kilometrage", Milli(e.km)>>, <<"line", Str(e.line)>>, <<"rising", Bool(e.rising)>>} ELSE {})
      known == SelectSeq(Order, LAMBDA k : \E f \in fs : f[1] = k) IN
  Object([i2 \in DOMAIN known |-> CHOOSE f \in fs : f[1] = known[i2]])

-----------------------------------------------------------------------------
(* the answers: [status, flat, lists <<<<key, in this order?, texts>>, ...>>] *)
Only(status) == [status |-> status, flat |-> "", lists |-> <<>>]
Found(flat, lists) == [status |-> 200, flat |-> flat, lists |-> lists]
\* the id a text names: written in digits, perhaps with zeros before them; -1: none of 0..(n - 1)
IdOf(arg, n) == LET m == {k \in 0..(n - 1) : \E z \in {"", "0", "00"} : arg = z \o Str(k)} IN IF m = {} THEN 0 - 1 ELSE CHOOSE k \in m : TRUE

One(things, arg, tell(_, _)) == LET i == IdOf(arg, Len(things)) IN IF i < 0 THEN Only(404) ELSE tell(i, things[i + 1])

Answer(B, q) ==
  IF q.kind = "infrastructures" THEN Found("{}", << <<"infrastructures", FALSE, [i \in DOMAIN B |-> Text(B[i].name)]>> >>)
  ELSE IF q.kind = "other" \/ q.infra \notin Names(B) THEN Only(404)
  ELSE LET b == Book(B, q.infra) IN
  CASE q.kind = "bounding_box" -> Found("{}", << <<"boundingBox", TRUE, Corners({e.pos : e \in Rng(b.els)})>> >>)
    [] q.kind = "stations" -> Found("{}", << <<"stations", FALSE,
          [i \in DOMAIN b.stations |-> Object(<< <<"ds100", Text(b.stations[i].name)>>, <<"id", Str(i - 1)>> >>)]>> >>)
    [] q.kind = "station" -> One(b.stations, q.args[1], LAMBDA i, s :
          Found(Object(<< <<"ds100", Text(s.name)>>, <<"id", Str(i)>> >>),
                << <<"interlockingRouteIds", FALSE, [k \in DOMAIN s.irs |-> Str(s.irs[k])]>>,
                   <<"stationRoutes", FALSE, [k \in DOMAIN s.routes |->
                      LET p == b.routes[s.routes[k][2] + 1].path IN
                      Object(<< <<"from_element", Str(p[1])>>, <<"id", Str(s.routes[k][2])>>, <<"name", Text(s.routes[k][1])>>,
                                <<"to_element", Str(p[Len(p)])>> >>)]>> >>))
    [] q.kind = "station_route" -> One(b.routes, q.args[1], LAMBDA i, r :
          Found(Object(<< <<"ds100", Text(b.stations[r.st + 1].name)>>, <<"id", Str(i)>>, <<"name", Text(r.name)>> >>),
                << <<"path", TRUE, [k \in DOMAIN r.path |-> Place(PosOf(b, r.path[k]))]>> >>))
    [] q.kind = "interlocking_route" -> One(b.irs, q.args[1], LAMBDA i, r :
          Found(Object(<< <<"id", Str(i)>> >>),
                << <<"path", TRUE, LET p == RouteEls(b, r) IN [k \in DOMAIN p |-> Place(PosOf(b, p[k]))]>> >>))
    [] q.kind = "exclusion_sets" -> One(b.sets, q.args[1], LAMBDA i, s :
          Found(Object(<< <<"id", Str(i)>>, <<"size", Str(Len(s))>> >>),
                << <<"interlocking_routes", FALSE, [k \in DOMAIN s |-> Str(s[k])]>> >>))
    [] q.kind = "element" -> One(b.els, q.args[1], LAMBDA i, e : Found(ElementText(i, e), <<>>))
    [] q.kind = "timetables" -> Found("{}", << <<"timetables", FALSE, [i \in DOMAIN b.tts |-> Text(b.tts[i].name)]>> >>)
    [] q.kind = "timetable" ->
          LET m == {t \in Rng(b.tts) : t.name = q.args[1]} IN
          IF m = {} THEN Only(404)
          ELSE LET t == CHOOSE x \in m : TRUE IN
               Found(Object(<< <<"timetable", Object(<< <<"interval", Object(<< <<"end", t.to>>, <<"start", t.from>> >>)>>,
                                                        <<"source", Text(t.name)>> >>)>> >>), <<>>)
    [] q.kind = "tiles" -> Only(501)               \* asked without allowing the compression tiles come in

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Same(inorder, want, got) ==
  IF inorder THEN want = got ELSE Len(want) = Len(got) /\ \A x \in Rng(want) : Count(want, x) = Count(got, x)
AnswerFaults(B, q, got) ==
  LET want == Answer(B, q) IN
  IF got.status # want.status THEN {<<"status", q.target, want.status, got.status>>}
  ELSE IF want.status # 200 THEN {}
  ELSE (IF got.flat = want.flat THEN {} ELSE {<<"said", q.target, want.flat, got.flat>>})
       \cup (IF [i \in DOMAIN got.lists |-> got.lists[i][1]] # [i \in DOMAIN want.lists |-> want.lists[i][1]] THEN {<<"lists", q.target>>}
             ELSE {<<"listed", q.target, want.lists[i]>> :
                    i \in {j \in DOMAIN want.lists : ~Same(want.lists[j][2], want.lists[j][3], got.lists[j][2])}})

-----------------------------------------------------------------------------
(* what can be searched for: <<type, name, id, element type, box>> *)
Padded(i) == IF i < 10 THEN "00" \o Str(i) ELSE IF i < 100 THEN "0" \o Str(i) ELSE Str(i)
BoxText(ps) == LET c == Corners(ps) IN c[1] \o c[2]
ElementNames(i, e) ==
  {Padded(i)} \cup (CASE e.t = "ms" -> {e.data.name} [] e.t = "simple_switch" -> {e.data.name}
                      [] e.t = "hlt" -> {e.data.name, e.data.ext, e.data.op} [] OTHER -> {})
Things(b) ==
  UNION {{<<"station", n, i - 1, "", BoxText({PosOf(b, e) : e \in Rng(b.stations[i].els)})>> : n \in {b.stations[i].name, b.stations[i].full}}
          : i \in DOMAIN b.stations}
  \cup UNION {{<<"element", n, i - 1, b.els[i].t, BoxText({b.els[i].pos})>> : n \in ElementNames(i - 1, b.els[i]) \ {""}} : i \in DOMAIN b.els}
  \cup {<<"stationRoute", b.routes[i].name, i - 1, "", BoxText({PosOf(b, e) : e \in Rng(b.routes[i].path)})>> : i \in DOMAIN b.routes}
  \cup {<<"interlockingRoute", Padded(i - 1), i - 1, "", BoxText({PosOf(b, e) : e \in Rng(RouteEls(b, b.irs[i]))})>> : i \in DOMAIN b.irs}
IndexFaults(b, got) ==
  LET want == TLCEval(Things(b))
      g == TLCEval({<<x[1], x[2], x[3], x[4], Place(x[5][1]) \o Place(x[5][2])>> : x \in {y \in Rng(got) : y[2] # ""}}) IN
  {<<"not found", x>> : x \in want \ g} \cup {<<"not there", x>> : x \in g \ want}
\* fewer than three characters are not searched for; the best matches come with all that is known of them
SearchFaults(B, known, q, got) ==
  IF q.infra \notin Names(B) THEN (IF got.status = 404 THEN {} ELSE {<<"status", q.target, 404, got.status>>})
  ELSE IF q.short THEN (IF got.status = 400 THEN {} ELSE {<<"status", q.target, 400, got.status>>})
  ELSE IF got.status # 200 THEN {<<"status", q.target, 200, got.status>>}
  ELSE LET want == {x \in known[q.infra] : x[2] = q.args[1]}
           texts == {Object(<< <<"boundingBox", "[" \o x[5] \o "]">>, <<"elementType", Text(x[4])>>, <<"id", Str(x[3])>>, <<"name", Text(x[2])>>,
                               <<"type", Text(x[1])>> >>) : x \in want} IN
       IF Len(got.lists) # 1 \/ got.lists[1][1] # "" THEN {<<"no list", q.target>>}
       ELSE {<<"not found", q.target, x>> : x \in texts \ Rng(got.lists[1][2])} \cup {<<"wrong", q.target, x>> : x \in Rng(got.lists[1][2]) \ texts}

-----------------------------------------------------------------------------
(* the planned order, as shown.  The graph: nodes <<id, route, train, in,     *)
(* out>>, trips <<train, day, first, behind the last, nodes>>; departs: the   *)
(* time of day (in seconds, perhaps beyond a day) trains first depart.        *)
(* Shown: nodes <<key, train, offset, relative train, route>>, edges <<from,  *)
(* to>>, total, longest.                                                      *)
ShownFaults(g, departs, got) ==
  LET trips == DOMAIN g.trips
      start(t) == <<g.trips[t][2], departs[g.trips[t][1] + 1]>>
      secs(t, base) == (g.trips[t][2] - base) * 86400 + departs[g.trips[t][1] + 1]
      first == IF trips = {} THEN 0 ELSE Min({g.trips[t][2] : t \in trips})
      at == TLCEval([t \in trips |-> secs(t, first)])
      \* <<first node, relative train>>: one for every trip
      pairs == TLCEval({<<x[1] - x[3], x[4]>> : x \in Rng(got.nodes)})
      rel == TLCEval([t \in trips |-> {p[2] : p \in {q \in pairs : q[1] = g.trips[t][3]}}])
      some == {t \in trips : g.trips[t][3] < g.trips[t][4]}
      want == TLCEval({<<n, g.nodes[n + 1][3], n - g.trips[t][3], g.nodes[n + 1][2]>> : <<n, t>> \in
                 UNION {{<<n, t>> : n \in g.trips[t][3]..(g.trips[t][4] - 1)} : t \in trips}})
      shown == TLCEval({<<x[1], x[2], x[3], x[5]>> : x \in Rng(got.nodes)})
      edges == TLCEval(UNION {{<<n[1], m>> : m \in Rng(n[5])} : n \in Rng(g.nodes)}) IN
  {<<"node left out", x>> : x \in want \ shown} \cup {<<"no such node", x>> : x \in shown \ want}
  \cup (IF Len(got.nodes) = Cardinality(want) THEN {} ELSE {<<"nodes", Len(got.nodes)>>})
  \cup {<<"edge left out", x>> : x \in edges \ Rng(got.edges)} \cup {<<"no such edge", x>> : x \in Rng(got.edges) \ edges}
  \cup (IF Len(got.edges) = Cardinality(edges) THEN {} ELSE {<<"edges", Len(got.edges)>>})
  \cup (IF got.total = Len(g.trips) THEN {} ELSE {<<"trains", got.total>>})
  \cup (IF got.longest = Max({0} \cup {g.trips[t][4] - g.trips[t][3] : t \in trips}) THEN {} ELSE {<<"longest", got.longest>>})
  \cup {<<"places of train", t, rel[t]>> : t \in {u \in some : Cardinality(rel[u]) # 1 \/ ~(rel[u] \subseteq 0..(Len(g.trips) - 1))}}
  \cup {<<"same place", t, u>> : <<t, u>> \in {p \in some \X some : p[1] < p[2] /\ rel[p[1]] = rel[p[2]]}}
  \cup {<<"place before an earlier train", t, u>> : <<t, u>> \in {p \in some \X some : at[p[1]] < at[p[2]] /\ Max(rel[p[1]] \cup {0 - 1}) > Max(rel[p[2]] \cup {0 - 1})}}

Verdict(F) == IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>
Judged(F, B) == {[res |-> Verdict(F), st |-> B]}
Init0 == <<>>
Apply(op, ev, B) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> <<>>]}
    [] op = "offer" -> {[res |-> <<"ok">>, st |-> Append(B, ev.book)]}
    [] op = "get" -> Judged(UNION {AnswerFaults(B, x[1], x[2]) : x \in Rng(ev.asked)}, B)
    [] op = "index" -> Judged(IndexFaults(Book(B, ev.infra), ev.got), B)
    [] op = "search" -> LET known == TLCEval([n \in Names(B) |-> Things(Book(B, n))]) IN
                        Judged(UNION {SearchFaults(B, known, x[1], x[2]) : x \in Rng(ev.asked)}, B)
    [] op = "order" -> Judged(IF ev.status # ev.got.status THEN {<<"status", ev.target, ev.status, ev.got.status>>}
                              ELSE IF ev.status # 200 THEN {}
                              ELSE ShownFaults(ev.graph, ev.departs, ev.got), B)
    [] op = "serves" -> {[res |-> <<"ok">>, st |-> B]}
=============================================================================
