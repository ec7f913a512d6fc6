----------------------------- MODULE Attributes -----------------------------
(* What a description says of the things it lists (P39) and how many of them  *)
(* there are (P38).  A description D:                                         *)
(*   stations   <<name, ...>>            full   <<<<name, full name>>, ...>>  *)
(*   secs       [st, line, nodes]        lines  <<<<number, segments>>, ...>> *)
(*   version    <<name, number>>         series, defaults: see below          *)
(* A node: [id, main, tag, km, x] with x what the tags inside it say.  Decimal *)
(* numbers are <<digits, decimals>>: <<125, 1>> is 12.5.                      *)
EXTENDS TrackPlan

\* a decimal number in 1/unit-ths
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Scaled(d, digits) == IF digits >= d[2] THEN d[1] * Pow10(digits - d[2]) ELSE d[1] \div Pow10(d[2] - digits)
Flag(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* elements *)
\* which halts are for passenger trains, and on which side their platform lies
Halts == [ HalteplatzGz |-> <<FALSE, 0, 0>>, HalteplatzRzLinks |-> <<TRUE, 1, 0>>, HalteplatzRzRechts |-> <<TRUE, 0, 1>>,
           HalteplatzRzRechtsLinks |-> <<TRUE, 1, 1>>, HalteplatzRzBeide |-> <<TRUE, 2, 2>> ]   \* 2: not settled
HaltOf(tag) == Halts[CHOOSE h \in DOMAIN Halts : tag \in {h \o "S", h \o "F"}]
EndsSpecial == {"GeschwEndeSpeziellS", "GeschwEndeSpeziellF"}
AtSignal == {"SignalZugschlussstelleS", "SignalZugschlussstelleF"}
Whom == [Alle |-> "all", Konventionell |-> "conventional", LZB |-> "lzb"]
Where == [Hier |-> "here", Signal |-> "signal"]

\* [id, kind, texts, numbers]
Data(n) ==
  LET kind == KindOf(n.tag)
      of(k, t, m) == [id |-> n.id, kind |-> k, texts |-> t, numbers |-> m] IN
  CASE kind = "ms" -> of("ms", <<n.x.name>>, <<>>)
    [] kind = "eotd" -> of("eotd", <<>>, <<Flag(n.tag \in AtSignal)>>)
    [] kind = "slope" -> of("slope", <<>>, <<Scaled(n.x.rise, 3), Scaled(n.x.fall, 3)>>)
    [] kind = "hlt" -> LET h == HaltOf(n.tag) IN
         of("halt", <<n.x.name, n.x.op, n.x.ext>>, IF h[2] = 2 THEN <<Flag(h[1])>> ELSE <<Flag(h[1]), h[2], h[3]>>)
    [] kind = "spl" ->
         of("spl", <<IF n.tag \in EndsSpecial THEN "end" ELSE "general", Where[n.x.where], Whom[n.x.whom]>>,
            << IF n.x.limit = <<>> THEN 0 - 1 ELSE Scaled(n.x.limit, 3),                           \* m/h
               IF n.x.len = <<>> THEN 0 - 1 ELSE Scaled(n.x.len, IF n.x.unit = "km" THEN 6 ELSE 3), \* mm
               Flag(n.x.calc), n.id, n.id >>)
    [] OTHER -> of("", <<>>, <<>>)
NodesOf(D) == UNION {Rng(D.secs[s].nodes) : s \in DOMAIN D.secs}
Mids(D) == {n \in NodesOf(D) : n.main = 0}
Tips(D) == {n \in NodesOf(D) : n.main # 0}
SwitchStarts(D) == {n \in Tips(D) : n.tag = "Weichenanfang"}
SwitchData(n) == [id |-> n.main, kind |-> "switch", texts |-> <<n.x.name, n.x.label>>, numbers |-> <<>>]
AllData(D) == {Data(n) : n \in Mids(D)} \cup {SwitchData(n) : n \in SwitchStarts(D)}
              \cup {[id |-> e, kind |-> "", texts |-> <<>>, numbers |-> <<>>] :
                      e \in {n.main : n \in Tips(D)} \ {n.main : n \in SwitchStarts(D)}}
\* <<id, line, km>>
Places(D) == UNION {{<<n.id, D.secs[s].line, n.km>> : n \in {m \in Rng(D.secs[s].nodes) : m.main = 0}} : s \in DOMAIN D.secs}

-----------------------------------------------------------------------------
(* lines: equipment by the kind of a segment; 0: no kind given *)
\* <<signals, LZB, ETCS>>
Equipment == [k \in {0, 1, 2, 3, 6, 8, 9, 12, 13, 14, 15, 18, 20, 21, 23, 24} |->
  << k \notin {0, 3, 13, 14, 24}, k \in {2, 3}, k \in {8, 9, 12, 13, 18, 23} >>]
Lines(D) == {<<l[1], [i \in DOMAIN l[2] |-> <<l[2][i][1], l[2][i][2]>> \o Equipment[l[2][i][3]]]>> : l \in Rng(D.lines)}
LineOf(D, nr) == (CHOOSE l \in Rng(D.lines) : l[1] = nr)[2]
\* the segment a chainage lies in, the nearer end of the line beyond it
SegmentAt(segs, km) ==
  IF km < segs[1][1] THEN segs[1]
  ELSE segs[Max({i \in DOMAIN segs : segs[i][1] <= km})]
Signalling(D, q) == [i \in DOMAIN q |-> LET e == Equipment[SegmentAt(LineOf(D, q[i][1]), q[i][2])[3]] IN <<e[1], e[3]>>]

-----------------------------------------------------------------------------
(* rolling stock: series [nr, company, variants [variant, name, weight (t), speed (km/h), curve]] *)
Unbroken(curve) == Len(curve) > 0 /\ \A i \in 1..(Len(curve) - 1) : curve[i][2] = curve[i + 1][1]
\* a variant whose tractive force is not given for all its speeds is left out
Stock(D) == UNION {{ <<s.nr \o "-" \o s.company, s.nr, s.company, v.variant, v.name, v.weight * 1000, v.speed * 1000, 0 - 700>> :
                     v \in {w \in Rng(s.variants) : Unbroken(w.curve)}} : s \in Rng(D.series)}
SeriesKeys(D) == {<<s.nr \o "-" \o s.company, s.nr, s.company>> : s \in Rng(D.series)}
Found(D, q) == [i \in DOMAIN q |->
  LET m == {v \in Stock(D) : v[2] = q[i][1] /\ v[3] = q[i][2] /\ v[4] = q[i][3]} IN
  IF m = {} THEN "could not find rolling stock vehicle" ELSE (CHOOSE v \in m : TRUE)[5]]

\* <<line class, ms, mm, m/h>>
Defaults(D) == IF D.defaults = <<>> THEN <<"", 0 - 1, 0 - 1, 0 - 1>>
               ELSE <<D.defaults[1], D.defaults[2], D.defaults[3], D.defaults[4] * 1000>>

Names(D) == [i \in DOMAIN D.stations |->
  LET f == {x \in Rng(D.full) : x[1] = D.stations[i]} IN
  <<D.stations[i], IF f = {} THEN D.stations[i] ELSE (CHOOSE x \in f : TRUE)[2], i - 1>>]

-----------------------------------------------------------------------------
(* how many there are *)
Count(D) ==
  LET mids == Mids(D)
      knots == {<<Port[n.tag][1], n.main>> : n \in Tips(D)}
      \* tracks cross from station to station over two borders; other borders are the edge of what is described
      borders == Cardinality({n \in Tips(D) : n.tag = "Betriebsstellengrenze" /\ n.partner \in Rng(D.stations)}) IN
  [ sections |-> Len(D.secs) + borders \div 2,
    stations |-> Len(D.stations),
    kinds |-> {<<k, Cardinality({n \in mids : KindOf(n.tag) = k})>> : k \in {KindOf(n.tag) : n \in mids} }
              \cup {<<k, Cardinality({x \in knots : x[1] = k})>> : k \in {x[1] : x \in knots}},
    total |-> Cardinality(mids) + Cardinality(knots) ]
\* kinds nothing is of may be listed with none
CountFaults(D, got) ==
  LET c == Count(D)
      listed == {k \in Rng(got.kinds) : k[2] # 0} IN
  {<<"missing", k>> : k \in c.kinds \ listed} \cup {<<"wrong", k>> : k \in listed \ c.kinds}
  \cup (IF got.sections = c.sections THEN {} ELSE {<<"sections", c.sections>>})
  \cup (IF got.stations = c.stations THEN {} ELSE {<<"stations", c.stations>>})
  \cup (IF got.total = c.total THEN {} ELSE {<<"total", c.total>>})
Verdict(F) == IF F = {} THEN <<"ok">> ELSE <<"diff", SetToSeq(F)>>

Init0 == <<>>
Apply(op, ev, D) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> ev.d]}
    [] op = "data" -> Judge(ev, SetRes(ev, AllData(D)), D)
    [] op = "places" -> Judge(ev, SetRes(ev, Places(D)), D)
    [] op = "lines" -> Judge(ev, SetRes(ev, Lines(D)), D)
    [] op = "signalling" -> Judge(ev, SeqRes(ev, Signalling(D, ev.q)), D)
    [] op = "stock" -> Judge(ev, SetRes(ev, Stock(D)), D)
    [] op = "series" -> Judge(ev, SetRes(ev, SeriesKeys(D)), D)
    [] op = "found" -> Judge(ev, SeqRes(ev, Found(D, ev.q)), D)
    [] op = "defaults" -> Judge(ev, SeqRes(ev, Defaults(D)), D)
    [] op = "version" -> Judge(ev, SeqRes(ev, D.version), D)
    [] op = "names" -> Judge(ev, SeqRes(ev, Names(D)), D)
    [] op = "count" -> Judge(ev, Verdict(CountFaults(D, ev.got)), D)
=============================================================================
