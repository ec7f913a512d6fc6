----------------------------- MODULE Instants -----------------------------
(* Instants, dates and durations on the proleptic Gregorian calendar in UTC. *)
(* A count of seconds is written <<days, seconds>> with 0 <= seconds < 86400, *)
(* so that every representable count fits TLC's integers.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Init0 == 0
Day == 86400

Norm(d, s) == <<d + (s \div Day), s % Day>>          \* \div floors
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Cmp(a, b) == IF a = b THEN 0 ELSE IF Lt(a, b) THEN 0 - 1 ELSE 1
Small(n) == Norm(0, n)

(* ---- calendar ---- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* leap years among the years 1..y
Leaps(y) == y \div 4 - y \div 100 + y \div 400
YearStart(y) == 365 * (y - 1970) + Leaps(y - 1) - Leaps(1969)
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthLen(y, m - 1)
DayOf(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1
YearOf(n) == LET g == 1970 + (n \div 366) IN     \* a year not after, or close
  CHOOSE y \in (g - 3)..(g + 3 + (IF n > 0 THEN n \div 100000 ELSE 0 - (n \div 100000))) : YearStart(y) <= n /\ n < YearStart(y + 1)
Civil(n) == LET y == YearOf(n)
                r == n - YearStart(y)
                m == CHOOSE k \in 1..12 : MonthStart(y, k) <= r /\ r < MonthStart(y, k) + MonthLen(y, k)
            IN <<y, m, r - MonthStart(y, m) + 1>>

Pad(n, w) == LET t == ToString(n) IN
  IF w = 2 THEN (IF n < 10 THEN "0" \o t ELSE t)
  ELSE IF n < 10 THEN "000" \o t ELSE IF n < 100 THEN "00" \o t ELSE IF n < 1000 THEN "0" \o t ELSE t
Ymd(c) == Pad(c[1], 4) \o "-" \o Pad(c[2], 2) \o "-" \o Pad(c[3], 2)
Clock(s) == Pad(s \div 3600, 2) \o ":" \o Pad((s \div 60) % 60, 2) \o ":" \o Pad(s % 60, 2)
Iso(a) == Ymd(Civil(a[1])) \o "T" \o Clock(a[2])
Long(a) == Ymd(Civil(a[1])) \o " " \o Clock(a[2])
Hm(a) == Pad(a[2] \div 3600, 2) \o ":" \o Pad((a[2] \div 60) % 60, 2)

Trunc(a, b) == LET q == (IF a < 0 THEN 0 - a ELSE a) \div (IF b < 0 THEN 0 - b ELSE b) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
Ok(v, st) == {[res |-> <<"ok", v>>, st |-> st]}
Three(c) == [lt |-> c < 0, le |-> c <= 0, gt |-> c > 0, ge |-> c >= 0, eq |-> c = 0, ne |-> c # 0]

Apply(op, c, st) ==
  CASE op = "new" -> {[res |-> <<"ok">>, st |-> st]}
    \* an absolute time: count and back, its midnight, time of day, text
    [] op = "abs" -> Ok([rep |-> c.a, mid |-> <<c.a[1], 0>>, tod |-> <<0, c.a[2]>>, text |-> Iso(c.a), valid |-> TRUE,
                         \* from the midnight by the time of day, and from the epoch by itself
                         again |-> c.a, epoch |-> c.a, str |-> c.a], st)
    [] op = "rel" -> Ok([abs |-> Add(c.a, c.r), rel |-> c.r, cmp |-> Three(Cmp(c.a, Add(c.a, c.r)))], st)
    [] op = "ymd" -> Ok(<<DayOf(c.y, c.m, c.d), 0>>, st)
    [] op = "cmp" -> Ok([abs |-> Three(Cmp(c.a, c.b)), rel |-> Three(Cmp(c.a, c.b))], st)
    [] op = "invalid" -> Ok([abs |-> FALSE, rel |-> FALSE, ut |-> FALSE, du |-> FALSE, ut0 |-> FALSE, du0 |-> FALSE, utx |-> FALSE, dux |-> FALSE,
                             zero |-> TRUE, zabs |-> TRUE, epoch |-> <<0, 0>>, zdu |-> <<0, 0>>, max |-> TRUE, text |-> "MAX"], st)
    \* unixtime / duration (64 bit counts)
    [] op = "ut" -> Ok([sum |-> Add(c.a, c.b), diff |-> Sub(c.a, c.b), dsum |-> Add(c.a, c.b), ddiff |-> Sub(c.a, c.b),
                        psum |-> Add(c.a, c.b), mix |-> Add(c.a, c.b), mixd |-> Sub(c.a, c.b), minus |-> Sub(c.a, c.b),
                        count |-> c.a, dur |-> c.a, valid |-> TRUE, same |-> c.a,
                        cmp |-> Three(Cmp(c.a, c.b)), dcmp |-> Three(Cmp(c.a, c.b)), ccmp |-> Three(Cmp(c.a, c.b))], st)
    [] op = "mul" -> Ok([ut |-> Small(c.x * c.y), du |-> Small(c.x * c.y)], st)
    [] op = "div" -> Ok([ut |-> Small(Trunc(c.x, c.y)), du |-> Small(Trunc(c.x, c.y)),
                         utm |-> Small(c.x - c.y * Trunc(c.x, c.y)), dum |-> Small(c.x - c.y * Trunc(c.x, c.y))], st)
    [] op = "unit" -> Ok([s |-> Small(c.x), m |-> Small(60 * c.x), h |-> Small(3600 * c.x), d |-> <<c.x, 0>>, text |-> ToString(c.x) \o "s"], st)
    [] op = "literal" -> Ok(<<Small(7), Small(7 * 60), Small(7 * 3600), Small(0), Small(90 * 60), Small(25 * 3600)>>, st)
    [] op = "in" -> Ok(~Lt(c.a, c.from) /\ ~Lt(c.to, c.a), st)
    [] op = "print" -> Ok([long |-> Long(c.a), ymd |-> Ymd(Civil(c.a[1])), clock |-> Clock(c.a[2]), hm |-> Hm(c.a), out |-> Long(c.a)], st)
    [] op = "parse" -> Ok([sp |-> c.a, t |-> c.a, day |-> <<c.a[1], 0>>, str |-> c.a], st)

(* laws of the calendar, checked by TLC over its whole range *)
Law(n) == LET c == Civil(n) IN DayOf(c[1], c[2], c[3]) = n
LawNext(n) == LET c == Civil(n)  e == Civil(n + 1) IN
  IF c[3] < MonthLen(c[1], c[2]) THEN e = <<c[1], c[2], c[3] + 1>>
  ELSE IF c[2] < 12 THEN e = <<c[1], c[2] + 1, 1>> ELSE e = <<c[1] + 1, 1, 1>>
ASSUME DayOf(1970, 1, 1) = 0 /\ DayOf(2000, 3, 1) = 11017 /\ DayOf(1969, 12, 31) = 0 - 1
=============================================================================
