-------------------------------- MODULE Map ---------------------------------
(* The maps of the web client (P47): each tab has a map of the selected       *)
(* infrastructure, a legend that says what is shown, and keeps the legend's   *)
(* choices between visits.                                                    *)
(* State: the selected infrastructure, the routes chosen, the tabs, what the  *)
(* browser keeps of each tab, the station clicked on, and the questions for   *)
(* the box of an infrastructure, in the order they were asked.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Types == <<"as", "border", "bumper", "cross", "ctc", "eotd", "hlt", "km_jump", "line_switch", "ms", "ps", "rtcp", "simple_switch",
           "slope", "spl", "station", "track_end", "tunnel">>
Controls == <<"Falling", "Rising">> \o Types
Initial == {"station", "hlt", "ms", "as", "eotd", "Rising", "Falling"}
Rank(x) == IF x = "A" THEN 1 ELSE 2
Sorted(s) == SelectSeq(Controls, LAMBDA x : x \in s)

Closed == [open |-> FALSE, infra |-> "", id |-> 0, loaded |-> FALSE, checked |-> {}, at |-> 0]
Page(st) == [st EXCEPT !.infra = "", !.s = {}, !.i = {}, !.tabs = <<Closed, Closed>>, !.station = 0, !.overlay = "", !.ask = <<>>]
Start == [ infra |-> "", s |-> {}, i |-> {}, tabs |-> <<Closed, Closed>>, kept |-> <<<<>>, <<>>>>, station |-> 0, overlay |-> "", ask |-> <<>>,
           n |-> 0 ]
Init0 == Start

Made(st, w, x) == [st EXCEPT !.n = @ + 1, !.tabs[w] = [@ EXCEPT !.infra = x, !.id = IF x = "" THEN 0 ELSE st.n + 1, !.loaded = FALSE, !.at = 0]]
Keep(st, w, c) == [st EXCEPT !.tabs[w].checked = c, !.kept[w] = <<c>>]

Select(st, x) ==                         \* selecting the same one again may keep what is shown
  LET s == [st EXCEPT !.infra = x]
      new(t, w) == IF t.tabs[w].open THEN Made(t, w, x) ELSE t
      all(t) == new(new(t, 1), 2) IN
  IF x # st.infra THEN {all([s EXCEPT !.s = {}, !.i = {}])} ELSE {s, [s EXCEPT !.s = {}, !.i = {}]}

Steps(op, c, st) ==
  CASE op = "page" -> {Page(st)}
    [] op = "open" ->
         LET w == c.w + 1 IN
         {Made([st EXCEPT !.tabs[w] = [Closed EXCEPT !.open = TRUE, !.checked = IF st.kept[w] = <<>> THEN Initial ELSE st.kept[w][1]]], w, st.infra)}
    [] op = "select" -> Select(st, c.x)
    [] op = "load" ->
         LET w == c.w + 1  t == st.tabs[w] IN
         IF ~t.open \/ t.infra = "" \/ t.loaded THEN {st}
         ELSE {[st EXCEPT !.tabs[w].loaded = TRUE, !.ask = Append(@, [w |-> w, id |-> t.id, x |-> t.infra])]}
    [] op = "answer" ->
         IF c.k > Len(st.ask) THEN {st}
         ELSE LET q == st.ask[c.k]
                  s == [st EXCEPT !.ask = RemoveAt(@, c.k)]
                  to == [s EXCEPT !.tabs[q.w].at = Rank(q.x)] IN
              IF c.how # "ok" THEN {s}
              ELSE IF st.tabs[q.w].id = q.id THEN {to}
              ELSE IF st.tabs[q.w].infra = q.x THEN {to, s} ELSE {s}
    [] op = "check" ->
         LET w == c.w + 1  t == st.tabs[w] IN
         IF ~t.open THEN {st} ELSE {Keep(st, w, IF c.on THEN t.checked \cup {c.x} ELSE t.checked \ {c.x})}
    [] op = "reset" -> IF st.tabs[c.w + 1].open THEN {Keep(st, c.w + 1, Initial)} ELSE {st}
    [] op = "dark" -> {st}
    [] op = "show" ->
         IF st.infra = "" THEN {st}
         ELSE LET f(z) == IF c.on THEN z \cup {c.id} ELSE z \ {c.id} IN {IF c.kind = "s" THEN [st EXCEPT !.s = f(@)] ELSE [st EXCEPT !.i = f(@)]}
    [] op = "go" -> {[st EXCEPT !.tabs = [w \in {1, 2} |-> IF st.tabs[w].open /\ st.tabs[w].infra # "" THEN [st.tabs[w] EXCEPT !.at = c.n] ELSE st.tabs[w]]]}
    [] op = "click" ->
         IF ~st.tabs[c.w + 1].open \/ st.tabs[c.w + 1].infra = "" \/ c.layer # "station" THEN {st}
         ELSE {[st EXCEPT !.station = c.id, !.overlay = "station"]}

Way(t) == (IF "Rising" \in t.checked THEN "r" ELSE "") \o (IF "Falling" \in t.checked THEN "f" ELSE "")
Layers(t) ==
  IF t.infra = "" THEN <<>>
  ELSE LET on == SelectSeq(Types, LAMBDA x : x \in t.checked /\ (x = "station" \/ Way(t) # "")) IN
       [k \in DOMAIN on |-> on[k] \o "=" \o (IF on[k] = "station" THEN "rf" ELSE Way(t))]
Drawn(x, z) == IF x = "" THEN <<>> ELSE SetToSortSeq({1000 * Rank(x) + id : id \in z}, <)
Seen(st) ==
  [ maps |-> [w \in {1, 2} |-> LET t == st.tabs[w] IN
                [infra |-> t.infra, checked |-> Sorted(t.checked), layers |-> Layers(t), s |-> Drawn(t.infra, st.s), i |-> Drawn(t.infra, st.i), at |-> t.at]],
    s |-> Drawn(st.infra, st.s), i |-> Drawn(st.infra, st.i), station |-> st.station, overlay |-> st.overlay, asked |-> [k \in DOMAIN st.ask |-> "GET /infrastructure/" \o st.ask[k].x \o "/bounding_box"] ]
Apply(op, c, st) == IF op = "new" THEN {[res |-> <<"ok">>, st |-> Start]} ELSE {[res |-> <<"ok", Seen(s)>>, st |-> s] : s \in Steps(op, c, st)}

-----------------------------------------------------------------------------
(* checked by TLC over all histories generated: a map shows the infrastructure *)
(* selected, and what is kept is what the legend says                          *)
Law(st) ==
  \A w \in {1, 2} : LET t == st.tabs[w] IN
    t.open => /\ t.infra = st.infra
              /\ t.checked = (IF st.kept[w] = <<>> THEN Initial ELSE st.kept[w][1])
              /\ (t.at \in {1, 2} => t.at = Rank(t.infra) /\ t.infra # "")
=============================================================================
