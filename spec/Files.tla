------------------------------- MODULE Files -------------------------------
(* A directory of files: each holds a sequence of bytes or does not exist.     *)
EXTENDS Integers, Sequences, TLC

Missing == <<-1>>
Names == 0..2
Init0 == [f \in Names |-> Missing]
One(res, st) == {[res |-> res, st |-> st]}
Bytes(st, f) == IF st[f] = Missing THEN <<>> ELSE st[f]

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "write" -> One(<<"ok">>, [st EXCEPT ![c.f] = c.b])
    [] op = "remove" -> One(<<"ok">>, [st EXCEPT ![c.f] = Missing])
    [] op = "read" -> One(<<"ok", Bytes(st, c.f)>>, st)
    [] op = "text" -> One(<<"ok", Bytes(st, c.f)>>, st)
    \* a file that is not there cannot be loaded
    [] op = "load" -> IF st[c.f] = Missing THEN One(<<"exc">>, st) ELSE One(<<"ok", <<st[c.f], st[c.f], Len(st[c.f]), TRUE>>>>, st)
    [] op = "sizes" -> One(<<"ok", [i \in 1..Len(c.sizes) |-> TRUE]>>, [st EXCEPT ![c.f] = Missing])

TypeOk(st) == \A f \in Names : st[f] = Missing \/ \A i \in 1..Len(st[f]) : st[f][i] \in 0..255
=============================================================================
