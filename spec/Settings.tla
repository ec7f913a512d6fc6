------------------------------ MODULE Settings ------------------------------
(* The settings of the web client (P47): the theme, its colour and the layout *)
(* of the page, kept between visits.                                          *)
(* State: what the browser keeps (<<>> for nothing), the theme of the system, *)
(* and the page: the preference, the colour chosen, the layout.               *)
EXTENDS Integers, Sequences, TLC

Blue == "#2196F3"
Start == [ kept |-> [prefer |-> "", colour |-> "", layout |-> ""], os |-> "light", open |-> FALSE, prefer |-> "os", colour |-> Blue, layout |-> "" ]
Init0 == Start
Visit(st) ==
  [st EXCEPT !.open = TRUE, !.prefer = IF st.kept.prefer = "" THEN "os" ELSE st.kept.prefer,
             !.colour = IF st.kept.colour = "" THEN Blue ELSE st.kept.colour,
             !.layout = IF st.kept.layout = "" THEN "first" ELSE st.kept.layout]
Save(st) == [st EXCEPT !.kept.prefer = st.prefer, !.kept.colour = st.colour]
Step(op, c, st) ==
  CASE op = "visit" -> Visit(st)
    [] op = "prefer" -> Save([st EXCEPT !.prefer = c.x])
    [] op = "colour" -> Save([st EXCEPT !.colour = c.x])
    [] op = "system" -> [st EXCEPT !.os = c.x]
    [] op = "tab" -> [st EXCEPT !.layout = @ \o "+" \o c.x]
    [] op = "keep" -> [st EXCEPT !.kept.layout = st.layout]
Theme(st) == IF st.prefer = "os" THEN st.os ELSE st.prefer
Seen(st) == [preference |-> st.prefer, theme |-> Theme(st), shown |-> Theme(st), colour |-> st.colour, said |-> st.colour, layout |-> st.layout]
Apply(op, c, st) ==
  IF op = "new" THEN {[res |-> <<"ok">>, st |-> Start]}
  ELSE LET s == Step(op, c, st) IN {[res |-> <<"ok", Seen(s)>>, st |-> s]}

(* a visit shows what was chosen in the one before *)
Remembers(st) == st.open => LET s == Visit(Save(st)) IN s.prefer = st.prefer /\ s.colour = st.colour /\ Theme(s) = Theme(st)
=============================================================================
