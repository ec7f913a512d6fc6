------------------------------- MODULE Kinds -------------------------------
(* The kinds of elements of a track plan: their names, the tags a description  *)
(* uses for them, and the classes they belong to.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Init0 == 0
One(res, st) == {[res |-> res, st |-> st]}

End == {"bumper", "track_end"}
Simple == {"km_jump", "border", "line_switch"}
Directed == {"ms", "ps", "as", "rtcp", "eotd", "spl", "point_speed", "brake_path", "lzb_start", "lzb_end", "lzb_block_sign",
             "etcs_start", "etcs_end", "etcs_block_sign", "forced_halt", "meta", "hlt"}
Undirected == {"tunnel", "entry", "track_name", "rtcp_u", "level_crossing", "slope"}
Kinds == End \cup Simple \cup {"simple_switch", "cross"} \cup Directed \cup Undirected
Track == Directed \cup Undirected

\* the classes a kind belongs to, in alphabetical order
Classes == <<<<"border", {"border"}>>, <<"cross", {"cross"}>>, <<"directed", Directed>>, <<"end", End>>,
             <<"etcs", {"etcs_start", "etcs_end", "etcs_block_sign"}>>, <<"halt", {"hlt"}>>,
             <<"lzb", {"lzb_start", "lzb_end", "lzb_block_sign"}>>, <<"checkpoint", {"rtcp", "rtcp_u"}>>,
             <<"section", Kinds \ Track>>, <<"simple", Simple>>, <<"switch", {"simple_switch"}>>, <<"track", Track>>, <<"undirected", Undirected>>>>
Broad == {"directed", "end", "section", "simple", "track", "undirected"}
Of(k, C) == LET S == SelectSeq(Classes, LAMBDA x : k \in x[2] /\ x[1] \in C) IN [i \in 1..Len(S) |-> S[i][1]]
AllClasses == {Classes[i][1] : i \in 1..Len(Classes)}

\* how many nodes and neighbours an element of a kind has
Shape(k) == CASE k \in End -> <<2, 2>> [] k \in Simple \cup Undirected -> <<2, 4>> [] k \in Directed -> <<1, 2>>
              [] k = "simple_switch" -> <<2, 6>> [] OTHER -> <<4, 8>>

\* tags of the description
TwoWay == <<<<"Vorsignal", "as">>, <<"Hauptsignal", "ms">>, <<"Schutzsignal", "ps">>, <<"FstrZugschlussstelle", "eotd">>, <<"SignalZugschlussstelle", "eotd">>,
            <<"GeschwEndeSpeziell", "spl">>, <<"GeschwZulaessig", "spl">>, <<"Punktgeschw", "point_speed">>, <<"Zwangshalt", "forced_halt">>,
            <<"Fahrzeitmesspunkt", "rtcp">>, <<"HalteplatzGz", "hlt">>, <<"HalteplatzRzLinks", "hlt">>, <<"HalteplatzRzRechts", "hlt">>,
            <<"HalteplatzRzBeide", "hlt">>, <<"HalteplatzRzRechtsLinks", "hlt">>, <<"Bremsweg", "brake_path">>, <<"LZBAnfang", "lzb_start">>, <<"LZBEnde", "lzb_end">>,
            <<"LZBBlockkennzeichen", "lzb_block_sign">>, <<"ETCSAnfang", "etcs_start">>, <<"ETCSEnde", "etcs_end">>, <<"ETCSBlockkennzeichen", "etcs_block_sign">>>>
OneWay == <<<<"KmSprungAnfang", "km_jump">>, <<"KmSprungEnde", "km_jump">>, <<"Streckenwechsel0", "line_switch">>, <<"Streckenwechsel1", "line_switch">>,
            <<"Prellbock", "bumper">>, <<"Betriebsstellengrenze", "border">>, <<"Gleisende", "track_end">>, <<"Neigung", "slope">>, <<"Tunnel", "tunnel">>,
            <<"Gleisbezeichnung", "track_name">>, <<"Bahnuebergang", "level_crossing">>, <<"Fahrzeitmesspunkt", "rtcp_u">>, <<"Zugang", "entry">>,
            <<"Weichenanfang", "simple_switch">>, <<"Weichenstamm", "simple_switch">>, <<"WeichenabzweigLinks", "simple_switch">>, <<"WeichenabzweigRechts", "simple_switch">>,
            <<"KreuzungAnfangLinks", "cross">>, <<"KreuzungAnfangRechts", "cross">>, <<"KreuzungEndeLinks", "cross">>, <<"KreuzungEndeRechts", "cross">>,
            <<"KreuzungsweicheAnfangLinks", "cross">>, <<"KreuzungsweicheAnfangRechts", "cross">>, <<"KreuzungsweicheEndeLinks", "cross">>, <<"KreuzungsweicheEndeRechts", "cross">>>>
Tags == {<<OneWay[i][1], OneWay[i][2], FALSE>> : i \in 1..Len(OneWay)} \cup {<<TwoWay[i][1] \o "S", TwoWay[i][2], TRUE>> : i \in 1..Len(TwoWay)}
        \cup {<<TwoWay[i][1] \o "F", TwoWay[i][2], FALSE>> : i \in 1..Len(TwoWay)}
KindOf(n) == LET S == {t \in Tags : t[1] = n} IN IF S = {} THEN "invalid" ELSE (CHOOSE t \in S : TRUE)[2]

\* the specification's own claims
ASSUME Cardinality(Kinds) = 30
ASSUME \A s, t \in Tags : s[1] = t[1] => s = t
ASSUME {t[2] : t \in Tags} = Kinds \ {"meta"}
ASSUME \A k \in Kinds : Cardinality({c \in {"end", "simple", "directed", "undirected", "switch", "cross"} : \E i \in 1..Len(Classes) : Classes[i][1] = c /\ k \in Classes[i][2]}) = 1

Cross(c) == c.k = "cross" /\ (c.a \/ c.b)
More(c) == (IF Cross(c) THEN <<"cross_switch">> ELSE <<>>) \o (IF Cross(c) \/ c.k = "simple_switch" THEN <<"switch">> ELSE <<>>)
           \o (IF c.k \in {"cross", "simple_switch"} THEN <<"joins">> ELSE <<>>) \o (IF c.rising THEN <<"rising">> ELSE <<"falling">>)
In(ks, ask) == [i \in 1..Len(ask) |-> \E j \in 1..Len(ks) : ks[j] = ask[i]]

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "all" -> IF "res" \in DOMAIN c /\ Len(c.res) = 2 /\ Len(c.res[2]) = 30 /\ {c.res[2][i] : i \in 1..30} = Kinds THEN One(c.res, st) ELSE {}
    [] op = "kind" -> One(<<"ok", [is |-> Of(c.k, AllClasses), back |-> TRUE]>>, st)
    [] op = "element" -> One(<<"ok", [is |-> Of(c.k, Broad), more |-> More(c), same |-> <<c.k>>, type |-> c.k, id |-> 7, nodes |-> Shape(c.k)[1], neigh |-> Shape(c.k)[2]]>>, st)
    [] op = "read" -> One(<<"ok", [kind |-> <<KindOf(c.n), KindOf(c.n)>>, rising |-> c.s]>>, st)
    [] op = "set" -> One(<<"ok", [in |-> In(c.ks, c.ask), all |-> c.ks]>>, st)
    [] op = "set_all" -> One(<<"ok", [in |-> [i \in 1..Len(c.ask) |-> c.ask[i] # "invalid"], n |-> 30, different |-> 30]>>, st)
=============================================================================
