----------------------------- MODULE TrackPlan -----------------------------
(* What a description of an infrastructure means: the track, and how a train  *)
(* can drive on it.  A plan P consists of sections of track between two       *)
(* ports of (section) elements, with track elements at chainages in between.  *)
(* Track elements are named by the id the description gives them; a           *)
(* direction of a section without any element relevant to it holds one        *)
(* artificial element, named by the section (MetaId).                         *)
(*                                                                            *)
(* The state of a train is <<previous element, element>>; Passages is its     *)
(* transition relation.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Sum(s) == FoldSeq(+, 0, s)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* vocabulary of the descriptions *)
Tag == [
   HauptsignalS |-> <<"ms", "S">>, HauptsignalF |-> <<"ms", "F">>, VorsignalS |-> <<"as", "S">>,
   VorsignalF |-> <<"as", "F">>, SchutzsignalS |-> <<"ps", "S">>, SchutzsignalF |-> <<"ps", "F">>,
   FstrZugschlussstelleS |-> <<"eotd", "S">>, FstrZugschlussstelleF |-> <<"eotd", "F">>,
   SignalZugschlussstelleS |-> <<"eotd", "S">>, SignalZugschlussstelleF |-> <<"eotd", "F">>,
   GeschwZulaessigS |-> <<"spl", "S">>, GeschwZulaessigF |-> <<"spl", "F">>, GeschwEndeSpeziellS |-> <<"spl", "S">>,
   GeschwEndeSpeziellF |-> <<"spl", "F">>, PunktgeschwS |-> <<"point_speed", "S">>,
   PunktgeschwF |-> <<"point_speed", "F">>, ZwangshaltS |-> <<"forced_halt", "S">>,
   ZwangshaltF |-> <<"forced_halt", "F">>, FahrzeitmesspunktS |-> <<"rtcp", "S">>,
   FahrzeitmesspunktF |-> <<"rtcp", "F">>, HalteplatzGzS |-> <<"hlt", "S">>, HalteplatzGzF |-> <<"hlt", "F">>,
   HalteplatzRzLinksS |-> <<"hlt", "S">>, HalteplatzRzLinksF |-> <<"hlt", "F">>,
   HalteplatzRzRechtsS |-> <<"hlt", "S">>, HalteplatzRzRechtsF |-> <<"hlt", "F">>,
   HalteplatzRzBeideS |-> <<"hlt", "S">>, HalteplatzRzBeideF |-> <<"hlt", "F">>,
   HalteplatzRzRechtsLinksS |-> <<"hlt", "S">>, HalteplatzRzRechtsLinksF |-> <<"hlt", "F">>,
   BremswegS |-> <<"brake_path", "S">>, BremswegF |-> <<"brake_path", "F">>, LZBAnfangS |-> <<"lzb_start", "S">>,
   LZBAnfangF |-> <<"lzb_start", "F">>, LZBEndeS |-> <<"lzb_end", "S">>, LZBEndeF |-> <<"lzb_end", "F">>,
   LZBBlockkennzeichenS |-> <<"lzb_block_sign", "S">>, LZBBlockkennzeichenF |-> <<"lzb_block_sign", "F">>,
   ETCSAnfangS |-> <<"etcs_start", "S">>, ETCSAnfangF |-> <<"etcs_start", "F">>, ETCSEndeS |-> <<"etcs_end", "S">>,
   ETCSEndeF |-> <<"etcs_end", "F">>, ETCSBlockkennzeichenS |-> <<"etcs_block_sign", "S">>,
   ETCSBlockkennzeichenF |-> <<"etcs_block_sign", "F">>, Neigung |-> <<"slope", "U">>, Tunnel |-> <<"tunnel", "U">>,
   Gleisbezeichnung |-> <<"track_name", "U">>, Bahnuebergang |-> <<"level_crossing", "U">>,
   Fahrzeitmesspunkt |-> <<"rtcp_u", "U">>, Zugang |-> <<"entry", "U">>]
Key == [
   tunnel |-> 0, slope |-> 10, entry |-> 20, rtcp_u |-> 100, rtcp |-> 101, hlt |-> 110, ms |-> 120, as |-> 130,
   ps |-> 140, eotd |-> 150, lzb_start |-> 160, lzb_block_sign |-> 170, lzb_end |-> 180, etcs_start |-> 190,
   etcs_block_sign |-> 200, etcs_end |-> 210, spl |-> 220, forced_halt |-> 230, point_speed |-> 240,
   brake_path |-> 250, track_name |-> 300, level_crossing |-> 310]
Port == [
   Prellbock |-> <<"bumper", "a">>, Gleisende |-> <<"track_end", "a">>, Betriebsstellengrenze |-> <<"border", "a">>,
   KmSprungAnfang |-> <<"km_jump", "a">>, KmSprungEnde |-> <<"km_jump", "b">>,
   Streckenwechsel0 |-> <<"line_switch", "a">>, Streckenwechsel1 |-> <<"line_switch", "b">>,
   Weichenanfang |-> <<"simple_switch", "start">>, Weichenstamm |-> <<"simple_switch", "stem">>,
   WeichenabzweigLinks |-> <<"simple_switch", "branch">>, WeichenabzweigRechts |-> <<"simple_switch", "branch">>,
   KreuzungAnfangLinks |-> <<"cross", "sl">>, KreuzungEndeLinks |-> <<"cross", "el">>,
   KreuzungAnfangRechts |-> <<"cross", "sr">>, KreuzungEndeRechts |-> <<"cross", "er">>,
   KreuzungsweicheAnfangLinks |-> <<"cross", "sl">>, KreuzungsweicheEndeLinks |-> <<"cross", "el">>,
   KreuzungsweicheAnfangRechts |-> <<"cross", "sr">>, KreuzungsweicheEndeRechts |-> <<"cross", "er">>]

KindOf(tag) == Tag[tag][1]
DirOf(tag)  == Tag[tag][2]
Relevant(tag, up) == DirOf(tag) = "U" \/ (DirOf(tag) = "S") = up
KeyOf(tag) == IF DirOf(tag) = "F" THEN Key[KindOf(tag)] + 1 ELSE Key[KindOf(tag)]
MetaKey == 999

\* the artificial element of a direction of section s
MetaId(s, up) == IF up THEN 0 - 2 * s ELSE 0 - 2 * s - 1

-----------------------------------------------------------------------------
(* sections.  An entry is <<element, chainage, key, relevant up, relevant down>> *)
Entry(m) == <<m[1], m[3], KeyOf(m[2]), Relevant(m[2], TRUE), Relevant(m[2], FALSE)>>
Before(a, b, up) ==
  IF a[2] # b[2] THEN (IF up THEN a[2] < b[2] ELSE a[2] > b[2])
  ELSE IF a[3] # b[3] THEN a[3] < b[3]
  ELSE a[1] < b[1]

NeedsMeta(sec, up) == \A i \in DOMAIN sec.mids : ~Relevant(sec.mids[i][2], up)
Entries(sec, s) ==
     [i \in DOMAIN sec.mids |-> Entry(sec.mids[i])]
  \o (IF NeedsMeta(sec, TRUE) THEN << <<MetaId(s, TRUE), sec.lo.km, MetaKey, TRUE, FALSE>> >> ELSE <<>>)
  \o (IF NeedsMeta(sec, FALSE) THEN << <<MetaId(s, FALSE), sec.hi.km, MetaKey, FALSE, TRUE>> >> ELSE <<>>)
SortedEntries(sec, s, up) == SortSeq(Entries(sec, s), LAMBDA a, b : Before(a, b, up))

Ids(es) == [i \in DOMAIN es |-> es[i][1]]
Ends(sec, up, inner) == IF up THEN <<sec.lo.main>> \o inner \o <<sec.hi.main>>
                              ELSE <<sec.hi.main>> \o inner \o <<sec.lo.main>>

Tracks(P) == DOMAIN P.secs
\* all elements of the section, in order of chainage
AllOf(P) == [x \in Tracks(P) \X BOOLEAN |-> Ends(P.secs[x[1]], x[2], Ids(SortedEntries(P.secs[x[1]], x[1], x[2])))]
\* those a train in that direction passes
WalkOf(P) == [x \in Tracks(P) \X BOOLEAN |->
   Ends(P.secs[x[1]], x[2],
        Ids(SelectSeq(SortedEntries(P.secs[x[1]], x[1], x[2]), LAMBDA e : IF x[2] THEN e[4] ELSE e[5])))]
\* chainages of the same elements
KmWalkOf(P) == [x \in Tracks(P) \X BOOLEAN |->
   LET sec == P.secs[x[1]]
       es == SelectSeq(SortedEntries(sec, x[1], x[2]), LAMBDA e : IF x[2] THEN e[4] ELSE e[5])
       ks == [i \in DOMAIN es |-> es[i][2]] IN
   IF x[2] THEN <<sec.lo.km>> \o ks \o <<sec.hi.km>> ELSE <<sec.hi.km>> \o ks \o <<sec.lo.km>>]

-----------------------------------------------------------------------------
(* ports: where sections meet *)
Attached(P) ==  \* <<element, port>> -> <<section, direction in which a train leaves the element>>
  LET los == {<<s, TRUE>> : s \in Tracks(P)}
      all == los \cup {<<s, FALSE>> : s \in Tracks(P)}
      pt(x) == LET n == IF x[2] THEN P.secs[x[1]].lo ELSE P.secs[x[1]].hi IN <<n.main, Port[n.tag][2]>> IN
  [p \in {pt(x) : x \in all} |-> CHOOSE x \in all : pt(x) = p]
PortNodes(P) == {P.secs[s].lo : s \in Tracks(P)} \cup {P.secs[s].hi : s \in Tracks(P)}
KindsOf(P) == [e \in {n.main : n \in PortNodes(P)} |-> Port[(CHOOSE n \in PortNodes(P) : n.main = e).tag][1]]
Arcs(P) == {<<n.main, Port[n.tag][2]>> : n \in {m \in PortNodes(P) : m.arc}}

\* border -> border on the other side, 0 if the neighbouring station is unknown
Partners(P) ==
  LET B == {<<s, lo>> \in Tracks(P) \X BOOLEAN :
               LET n == IF lo THEN P.secs[s].lo ELSE P.secs[s].hi IN n.tag = "Betriebsstellengrenze"}
      nd(b) == IF b[2] THEN P.secs[b[1]].lo ELSE P.secs[b[1]].hi
      stn(b) == P.names[P.secs[b[1]].st]
      match(a, b) == /\ nd(a).partner = stn(b) /\ nd(b).partner = stn(a)
                     /\ nd(a).sign = nd(b).sign /\ P.secs[a[1]].line = P.secs[b[1]].line
                     /\ nd(a).main # nd(b).main IN
  [e \in {nd(b).main : b \in B} |->
     LET me == CHOOSE b \in B : nd(b).main = e
         others == {b \in B : match(me, b)} IN
     IF others = {} THEN 0 ELSE nd(CHOOSE b \in others : TRUE).main]

\* the ways on from port p of element e: {<<kind, port to leave by>>}
Legs(kind, arcs, e, p) ==
  CASE kind \in {"line_switch", "km_jump"} -> {<<"next", IF p = "a" THEN "b" ELSE "a">>}
    [] kind = "simple_switch" -> IF p = "start" THEN {<<"next", "stem">>, <<"branch", "branch">>} ELSE {<<"next", "start">>}
    [] kind = "cross" ->
         LET straight == CASE p = "sl" -> "el" [] p = "el" -> "sl" [] p = "sr" -> "er" [] p = "er" -> "sr"
             over == CASE p = "sl" -> "er" [] p = "er" -> "sl" [] p = "sr" -> "el" [] p = "el" -> "sr"
             has == IF p \in {"sl", "er"} THEN <<e, "sl">> \in arcs ELSE <<e, "el">> \in arcs IN
         {<<"next", straight>>} \cup (IF has THEN {<<"branch", over>>} ELSE {})
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* the track of a plan, everything derived *)
Derive(P) ==
  [ P |-> P, all |-> AllOf(P), walk |-> WalkOf(P), kms |-> KmWalkOf(P), at |-> Attached(P), kinds |-> KindsOf(P),
    arcs |-> Arcs(P), partner |-> Partners(P) ]

FarNode(T, x) == IF x[2] THEN T.P.secs[x[1]].hi ELSE T.P.secs[x[1]].lo
NearNode(T, x) == IF x[2] THEN T.P.secs[x[1]].lo ELSE T.P.secs[x[1]].hi
IsEnd(T, e) == T.kinds[e] \in {"bumper", "track_end"} \/ (T.kinds[e] = "border" /\ T.partner[e] = 0)

\* how a train that arrives at the far end of walk x may go on:
\* {<<kind, next walk>>}; across a border pair nothing is in between
OnFrom(T, x) ==
  LET n == FarNode(T, x) IN
  {<<l[1], T.at[<<n.main, l[2]>>]>> : l \in Legs(T.kinds[n.main], T.arcs, n.main, Port[n.tag][2])}

Passages(T) ==
  UNION {
    LET w == T.walk[x]
        n == Len(w)
        far == w[n]
        near == w[1] IN
    {<<w[i - 1], w[i], "next", w[i + 1]>> : i \in 2..(n - 1)}
    \cup {<<w[n - 1], far, o[1], T.walk[o[2]][2]>> : o \in OnFrom(T, x)}
    \cup (IF IsEnd(T, far) THEN {<<w[n - 1], far, "none", 0>>} ELSE {})
    \cup (IF IsEnd(T, near) THEN {<<0, near, "next", w[2]>>} ELSE {})
    \cup (IF T.kinds[far] = "border" /\ ~IsEnd(T, far)
          THEN {<<w[n - 1], far, "next", T.partner[far]>>,
                <<far, T.partner[far], "next", T.walk[T.at[<<T.partner[far], "a">>]][2]>>}
          ELSE {})
    : x \in DOMAIN T.walk }

\* laws of the specification itself: an opposing train finds its way back over
\* every element that joins tracks, and no way on is a dead end
Lawful(T) ==
  /\ \A x \in DOMAIN T.walk : \A o \in OnFrom(T, x) :
        LET back == <<o[2][1], ~o[2][2]>>         \* the opposing walk of the section it leaves by
        IN \E b \in OnFrom(T, back) : b[2] = <<x[1], ~x[2]>> /\ (b[1] = o[1] \/ T.kinds[FarNode(T, x).main] = "simple_switch")
  /\ \A e \in DOMAIN T.partner : T.partner[e] # 0 => T.partner[T.partner[e]] = e
  /\ \A s \in Tracks(T.P) : Rng(T.all[<<s, TRUE>>]) = Rng(T.all[<<s, FALSE>>])
                          /\ Rng(T.walk[<<s, TRUE>>]) \cup Rng(T.walk[<<s, FALSE>>]) = Rng(T.all[<<s, TRUE>>])

-----------------------------------------------------------------------------
(* judging what the implementation reports: a list that must be a set S *)
SetRes(ev, S) ==
  IF Len(ev.res) < 2 THEN <<"ok", SetToSeq(S)>>
  ELSE LET got == Rng(ev.res[2]) IN
       IF got = S /\ Len(ev.res[2]) = Cardinality(S) THEN ev.res
       ELSE <<"diff", [missing |-> SetToSeq(S \ got), wrong |-> SetToSeq(got \ S),
                       repeated |-> Len(ev.res[2]) - Cardinality(got)]>>
\* a list that must be the sequence s: only where it differs
SeqRes(ev, s) ==
  IF Len(ev.res) < 2 THEN <<"ok", s>>
  ELSE IF ev.res[2] = s THEN ev.res
  ELSE IF Len(ev.res[2]) # Len(s) THEN <<"diff", [length |-> Len(s), expected |-> s]>>
  ELSE <<"diff", [i \in {j \in DOMAIN s : s[j] # ev.res[2][j]} |-> s[i]]>>
\* a list of records: only the fields that differ
RecsRes(ev, s) ==
  IF Len(ev.res) < 2 \/ Len(ev.res[2]) # Len(s) THEN SeqRes(ev, s)
  ELSE IF ev.res[2] = s THEN ev.res
  ELSE <<"diff", [i \in {j \in DOMAIN s : s[j] # ev.res[2][j]} |->
                   [f \in {g \in DOMAIN s[i] : s[i][g] # ev.res[2][i][g]} |-> <<s[i][f], "not", ev.res[2][i][f]>>]]>>
Judge(ev, res, T) == {[res |-> res, st |-> T]}
=============================================================================
