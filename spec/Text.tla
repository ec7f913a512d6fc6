-------------------------------- MODULE Text --------------------------------
(* Numbers written as text, splitting and comparing text, narrowing.          *)
(* Texts are sequences of character codes. Numbers beyond TLC's integers are  *)
(* kept as sign and decimal digits.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Init0 == 0
One(res, st) == {[res |-> res, st |-> st]}
Zero == 48
Minus == 45
Point == 46
Comma == 44
Digit(c) == c >= 48 /\ c <= 57
AllDigits(s) == \A i \in 1..Len(s) : Digit(s[i])
Digs(n) == n                         \* a number literal as its digits
\* decimal texts of the bounds of the types int8, uint8, ... uint64
Max0 == <<<<1,2,7>>, <<2,5,5>>, <<3,2,7,6,7>>, <<6,5,5,3,5>>, <<2,1,4,7,4,8,3,6,4,7>>, <<4,2,9,4,9,6,7,2,9,5>>,
          <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>, <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>>>
Signed(t) == t % 2 = 0
Bits(t) == 2 ^ (3 + t \div 2)
MaxOf(t) == Max0[t + 1]
MinOf(t) == IF Signed(t) THEN [Max0[t + 1] EXCEPT ![Len(Max0[t + 1])] = @ + 1] ELSE <<0>>    \* magnitude: one more than the maximum
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lex(Tail(a), Tail(b))
LeqD(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Lex(a, b))
\* a written integer: [ok, neg, digits]
Written(s) ==
  LET neg == s # <<>> /\ s[1] = Minus
      body == IF neg THEN Tail(s) ELSE s IN
  IF body = <<>> \/ ~AllDigits(body) THEN [ok |-> FALSE, neg |-> FALSE, d |-> <<0>>]
  ELSE [ok |-> TRUE, neg |-> neg, d |-> Strip([i \in 1..Len(body) |-> body[i] - 48])]
Fits(n, t) == IF n.neg /\ n.d # <<0>> THEN Signed(t) /\ LeqD(n.d, MinOf(t)) ELSE LeqD(n.d, MaxOf(t))
Written10(n) == (IF n.neg /\ n.d # <<0>> THEN <<Minus>> ELSE <<>>) \o [i \in 1..Len(n.d) |-> n.d[i] + 48]
ParseInt(s, t) ==
  LET n == TLCEval(Written(s)) IN
  IF n.ok /\ (n.neg => Signed(t)) /\ Fits(n, t) THEN <<"ok", Written10(n)>> ELSE <<"exc", <<>>>>

RECURSIVE Val(_, _)
Val(acc, d) == IF d = <<>> THEN acc ELSE Val(acc * 10 + (d[1] - 48), Tail(d))
\* a written decimal, in thousandths
ParseFp(s, comma) ==
  LET t == IF comma THEN [i \in 1..Len(s) |-> IF s[i] = Comma THEN Point ELSE s[i]] ELSE s
      neg == t # <<>> /\ t[1] = Minus
      body == IF neg THEN Tail(t) ELSE t
      dots == {i \in 1..Len(body) : body[i] = Point}
      dot == IF dots = {} THEN Len(body) + 1 ELSE CHOOSE i \in dots : TRUE
      int == SubSeq(body, 1, dot - 1)
      frac == SubSeq(body, dot + 1, Len(body))
      v == Val(0, int) * 1000 + Val(0, frac) * (10 ^ (3 - Len(frac))) IN
  IF Cardinality(dots) > 1 \/ Len(int) + Len(frac) = 0 \/ ~AllDigits(int) \/ ~AllDigits(frac) THEN <<"exc", 0>>
  ELSE <<"ok", IF neg THEN -v ELSE v>>

At(s, i, d) == i + Len(d) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(d) - 1) = d
RECURSIVE Pieces(_, _, _, _)
Pieces(s, from, i, d) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF At(s, i, d) THEN <<SubSeq(s, from, i - 1)>> \o Pieces(s, i + Len(d), i + Len(d), d)
  ELSE Pieces(s, from, i + 1, d)
Split(s, d) == IF s = <<>> THEN <<>> ELSE Pieces(s, 1, 1, d)

Narrow(c) ==
  LET n == TLCEval(Written(c.s))
      f == Fits(n, c.to) IN
  [fits |-> f, narrow |-> IF f THEN <<"ok", Written10(n)>> ELSE <<"exc", <<>>>>,
   narrowing |-> ~(LeqD(MaxOf(c.from), MaxOf(c.to)) /\ (Signed(c.from) => (Signed(c.to) /\ LeqD(MinOf(c.from), MinOf(c.to)))))]

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "int" -> LET r == ParseInt(c.s, c.t) IN One(<<"ok", <<r, r, r, r, r>>>>, st)
    [] op = "fp" -> LET a == ParseFp(c.s, TRUE)
                        b == ParseFp(c.s, FALSE)
                        A == <<a, a, a, a, a>>  B == <<b, b, b, b, b>> IN
                    One(<<"ok", [on |-> A, off |-> B, onf |-> A, offf |-> B, text |-> c.s]>>, st)
    [] op = "split" -> One(<<"ok", Split(c.s, c.d)>>, st)
    [] op = "compare" -> LET e == c.a = c.b IN
                    One(<<"ok", [equal |-> <<e, e, e, e, e, e>>, starts |-> At(c.a, 1, c.b), hash |-> <<e, e, TRUE, TRUE>>]>>, st)
    [] op = "narrow" -> One(<<"ok", Narrow(c)>>, st)
=============================================================================
