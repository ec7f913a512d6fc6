------------------------------- MODULE Client -------------------------------
(* What the browser shows of the server's infrastructures (P46).              *)
(* The user selects an infrastructure, a timetable, a range of time, trains,  *)
(* routes, a station and searches; each question to the server is answered,   *)
(* refused or lost, in any order.                                             *)
(* State: the selection, what is shown, and the questions without an answer,  *)
(* in the order they were asked; n counts what each part asked last.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Infras == <<"A", "B">>
Rank(x) == IF x = "A" THEN 1 ELSE 2
Num(t) == IF t = "T1" THEN 1 ELSE IF t = "T2" THEN 2 ELSE 3
Tts(x) == IF x = "A" THEN <<"T1", "T2">> ELSE <<"T2", "T3">>
Has(x, t) == \E i \in DOMAIN Tts(x) : Tts(x)[i] = t
Interval(x, t) == <<100 * Rank(x) + 10 * Num(t), 100 * Rank(x) + 10 * Num(t) + 5>>
Str(i) == ToString(i)
RECURSIVE Commas(_)
Commas(s) == IF s = <<>> THEN "" ELSE Str(s[1]) \o (IF Len(s) = 1 THEN "" ELSE "," \o Commas(Tail(s)))
In(x) == "GET /infrastructure/" \o x \o "/"
OrderOf(x, t, range, filter) == x \o "/timetable/" \o t \o "/ordering?from=" \o Str(range[1]) \o "&to=" \o Str(range[2]) \o "&trainIds=" \o Commas(filter)

Start == [ infras |-> <<>>, infra |-> "", tts |-> <<>>, tt |-> "", range |-> <<>>, filter |-> <<>>,
           want |-> [s |-> {}, i |-> {}], shown |-> [s |-> {}, i |-> {}], maybe |-> [s |-> {}, i |-> {}],
           query |-> "", results |-> <<>>, at |-> 0 - 1, station |-> <<"">>, drawn |-> "",
           n |-> [search |-> 0, station |-> 0, order |-> 0], last |-> [search |-> <<>>, station |-> <<>>, order |-> <<>>], open |-> <<>>, lost |-> FALSE ]
Init0 == Start

\* a question: what it is about, for which infrastructure, a name or number, and its number among those of its part
Ask(st, url, about, x, a, n) ==
  [st EXCEPT !.open = Append(@, [url |-> url, about |-> about, x |-> x, a |-> a, n |-> n]),
             !.last = IF about \in DOMAIN @ THEN [@ EXCEPT ![about] = <<url>>] ELSE @]
\* the latest question's answer counts; one to the same question asked before may
Latest(st, q, then) == IF q.n = st.n[q.about] THEN {then} ELSE IF st.last[q.about] = <<q.url>> THEN {st, then} ELSE {st}
AskRoute(st, kind, id) ==
  Ask(st, In(st.infra) \o (IF kind = "s" THEN "station_route/" ELSE "interlocking_route/") \o Str(id), kind, st.infra, Str(id), id)
AskOrder(st) ==                          \* the drawn graph may stay or go until the new one comes
  IF st.infra = "" \/ st.tt = "" \/ st.range = <<>> THEN {st}
  ELSE LET n == st.n.order + 1
           x == OrderOf(st.infra, st.tt, st.range, st.filter)
           s == Ask([st EXCEPT !.n.order = n], "GET /infrastructure/" \o x, "order", st.infra, x, n) IN
       {s, [s EXCEPT !.drawn = ""]}

None == [s |-> {}, i |-> {}]
AskTts(st) == IF st.infra = "" THEN st ELSE Ask(st, In(st.infra) \o "timetables", "tts", st.infra, "", 0)
Select(st, x) ==                         \* selecting the same one again may keep what belongs to it
  IF x = st.infra
  THEN {AskTts([st EXCEPT !.tt = "", !.tts = t, !.shown = w, !.want = w,
                          !.maybe = [k \in {"s", "i"} |-> (st.want[k] \cup st.maybe[k]) \ w[k]]]) : t \in {<<>>, st.tts}, w \in {None, st.shown}}
  ELSE {AskTts([st EXCEPT !.tt = "", !.tts = <<>>, !.shown = None, !.want = None, !.maybe = None, !.infra = x])}

Effect(st, q) ==                         \* the answer to a question
  CASE q.about = "infras" -> {[st EXCEPT !.infras = Infras]}
    [] q.about = "tts" -> {IF q.x = st.infra THEN [st EXCEPT !.tts = Tts(q.x)] ELSE st}
    [] q.about = "interval" -> IF q.x = st.infra /\ q.a = st.tt /\ Has(q.x, q.a) THEN AskOrder([st EXCEPT !.range = Interval(q.x, q.a)]) ELSE {st}
    [] q.about \in {"s", "i"} -> LET s == [st EXCEPT !.shown[q.about] = @ \cup {q.n}, !.want[q.about] = @ \cup {q.n}] IN
                                IF q.x = st.infra /\ q.n \in st.want[q.about] THEN {s}
                                ELSE IF q.x = st.infra /\ q.n \in st.maybe[q.about] THEN {s, st} ELSE {st}
    [] q.about = "search" -> Latest(st, q, [st EXCEPT !.results = <<q.a \o "@" \o q.x \o "1", q.a \o "@" \o q.x \o "2">>])
    [] q.about = "station" -> LET id == CHOOSE i \in 0..99 : Str(i) = q.a IN
                              Latest(st, q, [st EXCEPT !.station = <<q.x \o q.a, "s" \o Str(10 * id), "i" \o Str(10 * id + Rank(q.x))>>])
    [] q.about = "order" -> Latest(st, q, [st EXCEPT !.drawn = q.a])

Steps(op, c, st) ==
  CASE op = "start" -> {Ask(Start, "GET /infrastructures", "infras", "", "", 0)}
    [] op = "infra" -> Select(st, c.x)
    [] op = "tt" -> IF st.infra = "" THEN {st}
                    ELSE IF c.x = "" THEN {[st EXCEPT !.tt = ""]}
                    ELSE {Ask([st EXCEPT !.tt = c.x], In(st.infra) \o "timetable/" \o c.x, "interval", st.infra, c.x, 0)}
    [] op = "range" -> AskOrder([st EXCEPT !.range = <<c.a, c.b>>])
    [] op = "filter" -> AskOrder([st EXCEPT !.filter = c.ids])
    [] op = "choose" ->
         IF ~c.on THEN {[st EXCEPT !.want[c.kind] = @ \ {c.id}, !.shown[c.kind] = @ \ {c.id}, !.maybe[c.kind] = @ \ {c.id}]}
         ELSE IF st.infra = "" THEN {st}
         ELSE LET s == AskRoute([st EXCEPT !.want[c.kind] = @ \cup {c.id}], c.kind, c.id) IN
              {s} \cup (IF c.id \in st.shown[c.kind] THEN {st} ELSE {})        \* what is shown need not be asked for
    [] op = "query" ->
         IF c.text = st.query \/ (st.infra = "" /\ c.long) THEN {st}
         ELSE LET n == st.n.search + 1
                  s == [st EXCEPT !.query = c.text, !.n.search = n] IN
              {IF ~c.long THEN [s EXCEPT !.results = <<>>, !.last.search = <<>>] ELSE Ask(s, In(st.infra) \o "search/" \o c.text, "search", st.infra, c.text, n)}
    [] op = "station" ->
         IF c.id = st.at \/ st.infra = "" THEN {st}
         ELSE LET n == st.n.station + 1 IN
              {Ask([st EXCEPT !.at = c.id, !.n.station = n], In(st.infra) \o "station/" \o Str(c.id), "station", st.infra, Str(c.id), n)}
    [] op = "answer" ->
         IF c.k > Len(st.open) THEN {st}
         ELSE LET s == [st EXCEPT !.open = RemoveAt(@, c.k)] IN
              IF c.how = "ok" THEN Effect(s, st.open[c.k]) ELSE {[s EXCEPT !.lost = TRUE]}

Shown(st, kind) == SetToSortSeq({1000 * Rank(st.infra) + id : id \in st.shown[kind]}, <)
Seen(st) ==
  [ infras |-> st.infras, infra |-> st.infra, tts |-> st.tts, tt |-> st.tt, range |-> st.range, filter |-> st.filter,
    station_routes |-> Shown(st, "s"), interlocking_routes |-> Shown(st, "i"), results |-> st.results, station |-> st.station,
    drawn |-> st.drawn, asked |-> [i \in DOMAIN st.open |-> st.open[i].url] ]
Apply(op, c, st) ==
  IF op = "new" THEN {[res |-> <<"ok">>, st |-> Start]}
  ELSE {[res |-> <<"ok", Seen(s)>>, st |-> s] : s \in Steps(op, c, st)}

-----------------------------------------------------------------------------
(* what this amounts to (checked by TLC over all histories generated): what is *)
(* shown belongs to the selection, and once all is answered it is all there    *)
Belongs(st) ==
  /\ st.tts # <<>> => st.infra # "" /\ st.tts = Tts(st.infra)
  /\ \A k \in {"s", "i"} : st.shown[k] \subseteq st.want[k] /\ (st.infra = "" => st.want[k] = {})
  /\ st.tt # "" => st.infra # ""
Complete(st) ==
  (st.open = <<>> /\ ~st.lost) =>
    /\ st.infra # "" => st.tts = Tts(st.infra)
    /\ \A k \in {"s", "i"} : st.shown[k] = st.want[k]
    /\ (st.tt # "" /\ st.infra # "" /\ Has(st.infra, st.tt)) => st.range # <<>>
=============================================================================
