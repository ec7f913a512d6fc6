---------------------------- MODULE Generators ----------------------------
(* Coroutine generators and their consumers.                                 *)
(* A body is a program: a sequence of instructions                           *)
(*   m v   note marker v                                                     *)
(*   y v   yield a variable holding v                                        *)
(*   r v   yield the temporary v                                             *)
(*   w v   yield a variable holding v, then note what the consumer left in it*)
(*   x     raise an error                                                    *)
(*   d p   delegate to a generator running p (a temporary)                   *)
(*   D p   delegate to a generator running p (held in a variable)            *)
(*   n     delegate to an empty (moved-from) generator                       *)
(*   t p   like d, but catch an error of p and note -1                       *)
(*   l p   loop over a generator running p and yield each of its values      *)
(* Slots hold generators; a consumer advances, moves, swaps, drops or drains *)
(* them in any order.  kind: "rec" recursive_generator, "gen" generator,     *)
(* "cgen" generator of constants, "it" coro_it by value, "rit" by reference. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Slots == 1..3
None == [kind |-> "none", stack |-> <<>>, at |-> "none", val |-> 0]
Init0 == [i \in Slots |-> None]

Frame(p) == [p |-> p, pc |-> 1]
Delegates == {"d", "D", "t", "l"}

\* Run: execute the stack until a value is yielded, the body is finished or an
\* error leaves it.  Returns [stack, val, how, log].
RECURSIVE Run(_, _), Unwind(_, _)
Run(stack, log) ==
  IF stack = <<>> THEN [stack |-> <<>>, val |-> 0, how |-> "end", log |-> log]
  ELSE LET n == Len(stack)
           f == stack[n]
           rest == SubSeq(stack, 1, n - 1)
           adv == Append(rest, [f EXCEPT !.pc = @ + 1])
       IN IF f.pc > Len(f.p)
          THEN \* the body of f ends; its caller goes on behind the delegation
               IF rest = <<>> THEN Run(<<>>, log)
               ELSE Run([rest EXCEPT ![n - 1].pc = @ + 1], log)
          ELSE LET i == f.p[f.pc] IN
               CASE i.k = "m" -> Run(adv, Append(log, i.v))
                 [] i.k \in {"y", "r", "w"} -> [stack |-> stack, val |-> i.v, how |-> "yield", log |-> log]
                 [] i.k = "x" -> Unwind(rest, log)
                 [] i.k = "n" -> Run(adv, log)
                 [] i.k \in Delegates -> Run(Append(stack, Frame(i.p)), log)
Unwind(stack, log) ==
  IF stack = <<>> THEN [stack |-> <<>>, val |-> 0, how |-> "error", log |-> log]
  ELSE LET n == Len(stack)
           f == stack[n]
           rest == SubSeq(stack, 1, n - 1)
       IN IF f.p[f.pc].k = "t"
          THEN Run(Append(rest, [f EXCEPT !.pc = @ + 1]), Append(log, 0 - 1))
          ELSE Unwind(rest, log)

\* resume behind the current yield
Resume(s) ==
  LET n == Len(s.stack)
      f == s.stack[n]
      log == IF f.p[f.pc].k = "w" THEN <<s.val>> ELSE <<>>
  IN Run([s.stack EXCEPT ![n].pc = @ + 1], log)

Lazy(kind) == kind = "rec"
Made(kind, p) ==     \* a freshly created generator and what its creation logs
  IF Lazy(kind) THEN [s |-> [kind |-> kind, stack |-> <<Frame(p)>>, at |-> "fresh", val |-> 0], log |-> <<>>]
  ELSE LET r == Run(<<Frame(p)>>, <<>>) IN
       [s |-> [kind |-> kind, stack |-> r.stack, at |-> IF r.how = "yield" THEN "at" ELSE "end", val |-> r.val], log |-> r.log]

After(s, r) == [s EXCEPT !.stack = r.stack, !.val = r.val, !.at = IF r.how = "yield" THEN "at" ELSE "end"]
\* activations that still hold resources: all frames of all generators; a body
\* not yet started holds none
Live(st) == LET one(s) == IF s.at = "fresh" THEN 0 ELSE Len(s.stack)
            IN one(st[1]) + one(st[2]) + one(st[3])

Out(st, tag, vals, log) == {[res |-> <<"ok", [r |-> tag, v |-> vals, log |-> log, live |-> Live(st)]>>, st |-> st]}
NA(st) == Out(st, "na", <<>>, <<>>)
Tag(s) == IF s.at = "at" THEN "value" ELSE "end"

\* drain a slot: all remaining values from its current position
RECURSIVE Drain(_, _, _)
Drain(s, r, vals) ==
  IF r.how = "yield"
  THEN LET nx == Resume([s EXCEPT !.stack = r.stack, !.val = r.val])
       IN Drain(s, [nx EXCEPT !.log = r.log \o nx.log], Append(vals, r.val))
  ELSE [s |-> [s EXCEPT !.stack = <<>>, !.at = "end", !.val = 0], how |-> r.how, vals |-> vals, log |-> r.log]

Apply(op, c, st) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> Init0]}
    [] op = "make" ->      \* replaces what the slot held
         LET m == Made(c.kind, c.p)
             n == [st EXCEPT ![c.s] = m.s]
         IN Out(n, "made", <<>>, m.log)
    [] op = "begin" ->     \* plain generators may be asked again without effect
         LET s == st[c.s] IN
         IF s.at = "fresh"
         THEN LET r == Run(s.stack, <<>>)
                  n == [st EXCEPT ![c.s] = After(s, r)]
              IN IF r.how = "error" THEN Out(n, "error", <<>>, r.log)
                 ELSE Out(n, Tag(n[c.s]), IF r.how = "yield" THEN <<r.val>> ELSE <<>>, r.log)
         ELSE IF s.kind \in {"gen", "cgen"}
         THEN Out(st, Tag(s), IF s.at = "at" THEN <<s.val>> ELSE <<>>, <<>>)
         ELSE NA(st)
    [] op = "next" ->
         LET s == st[c.s] IN
         IF s.at # "at" THEN NA(st)
         ELSE LET r == Resume(s)
                  n == [st EXCEPT ![c.s] = After(s, r)]
              IN IF r.how = "error" THEN Out(n, "error", <<>>, r.log)
                 ELSE Out(n, Tag(n[c.s]), IF r.how = "yield" THEN <<r.val>> ELSE <<>>, r.log)
    [] op = "get" ->       \* look (twice) at the current value
         LET s == st[c.s] IN IF s.at # "at" THEN NA(st) ELSE Out(st, "value", <<s.val, s.val>>, <<>>)
    [] op = "put" ->       \* write through the reference handed out
         LET s == st[c.s] IN
         IF s.at # "at" \/ s.kind \notin {"rec", "gen", "rit"} THEN NA(st)
         ELSE LET n == [st EXCEPT ![c.s].val = c.v] IN Out(n, "value", <<c.v>>, <<>>)
    [] op = "drop" -> Out([st EXCEPT ![c.s] = None], "dropped", <<>>, <<>>)
    [] op = "move" ->      \* move-construct slot t from slot s
         IF c.s = c.t THEN NA(st) ELSE
         LET n == [st EXCEPT ![c.t] = st[c.s], ![c.s] = None] IN Out(n, "moved", <<>>, <<>>)
    [] op = "assign" ->    \* move-assign between recursive generators
         IF st[c.s].kind # "rec" \/ st[c.t].kind # "rec" THEN NA(st)
         ELSE IF c.s = c.t THEN Out(st, "moved", <<>>, <<>>)
         ELSE Out([st EXCEPT ![c.t] = st[c.s], ![c.s] = None], "moved", <<>>, <<>>)
    [] op = "swap" ->
         IF st[c.s].kind # "rec" \/ st[c.t].kind # "rec" THEN NA(st)
         ELSE Out([st EXCEPT ![c.t] = st[c.s], ![c.s] = st[c.t]], "moved", <<>>, <<>>)
    [] op \in {"drain", "collect", "collect2", "map", "into", "fmap"} ->
         \* a whole-sequence consumer on an unused generator
         LET s == st[c.s]
             ready == IF s.kind = "rec" THEN s.at = "fresh" ELSE s.at \in {"at", "end"} /\ s.kind \in {"gen", "cgen"}
         IN IF ~ready \/ (op \in {"into", "fmap"} /\ s.kind # "rec") THEN NA(st)
            ELSE LET r == IF s.at = "fresh" THEN Run(s.stack, <<>>)
                          ELSE [stack |-> s.stack, val |-> s.val, how |-> IF s.at = "at" THEN "yield" ELSE "end", log |-> <<>>]
                     d == Drain(s, r, <<>>)
                     \* fmap takes the generator over
                     n == [st EXCEPT ![c.s] = IF op = "fmap" THEN None ELSE d.s]
                     f(v) == IF op \in {"collect2", "map", "fmap"} THEN 2 * v + 1 ELSE v
                     vals == [i \in 1..Len(d.vals) |-> f(d.vals[i])]
                 IN IF d.how = "error"
                    THEN IF op \in {"map", "fmap"} THEN NA(st)   \* these go through a plain generator
                         ELSE Out(n, "error", <<>>, d.log)
                    ELSE Out(n, "all", vals, d.log)

-----------------------------------------------------------------------------
(* commands for generated histories *)
I(k, v, p) == [k |-> k, v |-> v, p |-> p]
Leafs == {I("y", 1, <<>>), I("r", 2, <<>>), I("w", 3, <<>>), I("m", 4, <<>>), I("x", 0, <<>>), I("n", 0, <<>>)}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE HasError(_), Bare(_)
HasError(p) == \E i \in 1..Len(p) : p[i].k = "x" \/ HasError(p[i].p)
\* programs a plain generator can run (it cannot delegate)
Bare(p) == \A i \in 1..Len(p) : p[i].k \notin {"d", "D", "n", "x", "t"} /\ Bare(p[i].p)

(* laws of the specification itself *)
RECURSIVE All(_)
All(p) ==      \* the values of an error-free program, by recursion on its structure
  IF p = <<>> THEN <<>>
  ELSE (CASE p[1].k \in {"y", "r", "w"} -> <<p[1].v>>
          [] p[1].k \in Delegates -> All(p[1].p)
          [] OTHER -> <<>>) \o All(Tail(p))
Law(p) == ~HasError(p) =>
  LET m == Made("rec", p).s IN Drain(m, Run(m.stack, <<>>), <<>>).vals = All(p)
=============================================================================
