------------------------------ MODULE Junctions ------------------------------
(* All ways a single joining element can lie in the track: for each of its    *)
(* ports, on which side the section leaves it and which elements follow, and  *)
(* the diagonals of a crossing.                                               *)
EXTENDS Naturals, Sequences, FiniteSets
Init0 == <<>>
Near == {<<>>, <<"S">>, <<"F">>, <<"U">>}
More == {<<"S", "F">>, <<"U", "S">>, <<"F", "U", "s">>, <<"f", "S", "U">>}
Shape(kind, ports, ups, mids, arcs) ==
  {[op |-> "recipe", kind |-> kind, ports |-> ports, up |-> u, mids |-> m, arcs |-> a] :
     u \in [{ports[i] : i \in 1..Len(ports)} -> ups], m \in [{ports[i] : i \in 1..Len(ports)} -> mids], a \in arcs}
Same(R) == {r \in R : Cardinality({r.mids[p] : p \in DOMAIN r.mids}) <= 2}
Recipes ==
  Same(Shape("simple_switch", <<"start", "stem", "branch">>, BOOLEAN, Near, {"plain"}))
  \cup Shape("line_switch", <<"a", "b">>, BOOLEAN, Near \cup More, {"plain"})
  \* a jump of the chainage lies in one line: that line passes it from b to a
  \cup {r \in Shape("km_jump", <<"a", "b">>, BOOLEAN, Near \cup More, {"plain"}) : r.up["a"] /\ ~r.up["b"]}
  \cup {r \in Shape("border", <<"a", "b">>, BOOLEAN, Near \cup More, {"plain"}) : r.up["a"] # r.up["b"]}
  \cup {r \in Shape("cross", <<"sl", "el", "sr", "er">>, BOOLEAN, Near, {"plain", "lr", "rl", "both"}) :
          Cardinality({r.mids[p] : p \in DOMAIN r.mids}) <= 1}
Apply(op, c, st) == {[res |-> <<"ok">>, st |-> st]}
=============================================================================
