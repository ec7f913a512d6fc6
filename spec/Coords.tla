------------------------------- MODULE Coords ------------------------------
(* Places on the sphere. Degrees are given in thousandths as <<lon, lat>>,     *)
(* distances in metres, unit vectors in ten thousandths. PI is 3.1415 and the  *)
(* radius of the earth 6378137 m, as the project defines them.                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Init0 == 0
One(res, st) == {[res |-> res, st |-> st]}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol

-----------------------------------------------------------------------------
\* sines of whole degrees, in ten thousandths
Sin90 == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
Quarter(d) == Sin90[d + 1]
Whole(d) == LET m == d % 360 IN
  CASE m <= 90 -> Quarter(m) [] m <= 180 -> Quarter(180 - m) [] m <= 270 -> -Quarter(m - 180) [] OTHER -> -Quarter(360 - m)
\* thousandths of degrees, by interpolation
Sin(x) == LET d == x \div 1000 IN Whole(d) + ((Whole(d + 1) - Whole(d)) * (x % 1000)) \div 1000
Cos(x) == Sin(x + 90000)
Times(a, b) == (a * b) \div 10000
\* the cosine of the angle between two places
CosBetween(a, b) == Times(Sin(a[2]), Sin(b[2])) + Times(Times(Cos(a[2]), Cos(b[2])), Cos(b[1] - a[1]))
\* metres to thousandths of a degree: 111316 m are one degree
Degrees(m) == (m \div 111316) * 1000 + ((m % 111316) * 1000) \div 111316
Metres(x) == (x \div 1000) * 111316 + ((x % 1000) * 111316) \div 1000
HalfWay == 20036918
Direct(a, b) == a[1] = b[1] \/ (a[2] = 0 /\ b[2] = 0)
Apart(a, b) == IF a[1] = b[1] THEN Abs(a[2] - b[2]) ELSE Abs(a[1] - b[1])
Around(x) == IF x > 180000 THEN 360000 - x ELSE x
Turn(a, b) == LET d == (a - b) % 360000 IN IF d > 180000 THEN 360000 - d ELSE d

BetweenOk(c, r) ==
  /\ r.ab = r.ba
  /\ r.aa = 0
  /\ r.ab >= 0
  /\ r.ab <= HalfWay + 700
  /\ c.a = c.b => r.ab = 0
  /\ (r.ab = 0 /\ Abs(c.a[2]) < 60000) => c.a = c.b
  /\ Near(Cos(Degrees(r.ab)), CosBetween(c.a, c.b), 12)
  \* along a meridian or the equator the distance is in proportion to the angle
  /\ Direct(c.a, c.b) => Near(r.ab, Metres(Around(Apart(c.a, c.b))), 10 + (IF Apart(c.a, c.b) > 180000 THEN 3000 ELSE Apart(c.a, c.b) \div 100))

\* sine and cosine of the bearing, both times the distance's sine
BearingOk(c, r) ==
  LET y == Times(Sin(c.b[1] - c.a[1]), Cos(c.b[2]))
      x == Times(Cos(c.a[2]), Sin(c.b[2])) - Times(Times(Sin(c.a[2]), Cos(c.b[2])), Cos(c.b[1] - c.a[1]))
  IN /\ Near(Times(y, Cos(r)), Times(x, Sin(r)), 25)
     /\ Times(y, Sin(r)) + Times(x, Cos(r)) >= -25
     /\ r >= -180010 /\ r <= 180010

MoveOk(c, r) ==
  /\ Near(r.dist, c.d, 2)
  \* near a pole or for the tiniest of distances a bearing says nothing
  /\ (c.d > 100 /\ c.d < 19500000 /\ Abs(c.a[2]) < 89000) => Turn(r.bearing, c.b) <= (IF Abs(c.b) <= 180000 THEN 2 ELSE 30) + 2000000 \div c.d
  /\ r.back <= 2 + (IF c.d > 19500000 THEN 100000 ELSE 0)
  /\ c.d = 0 => Near(r.to[1], c.a[1], 1) /\ Near(r.to[2], c.a[2], 1)
  /\ Abs(r.to[2]) <= 90010

CartesianOk(c, r) ==
  /\ Near(r.p[1], Times(Cos(c.a[2]), Cos(c.a[1])), 5)
  /\ Near(r.p[2], Times(Cos(c.a[2]), Sin(c.a[1])), 5)
  /\ Near(r.p[3], Sin(c.a[2]), 5)
  /\ Near(r.g[2], c.a[2], 1)
  /\ Abs(c.a[2]) < 90000 => Near(r.g[1], c.a[1], 1)

PolarDirection(x, y) ==
  CASE x > 0 /\ y = 0 -> 180000 [] x < 0 /\ y = 0 -> 0 [] x = 0 /\ y > 0 -> 270000 [] x = 0 /\ y < 0 -> 90000
    [] x = y /\ x > 0 -> 225000 [] x = y /\ x < 0 -> 45000 [] x = -y /\ x > 0 -> 135000 [] x = -y /\ x < 0 -> 315000
PolarOk(c, r) ==
  /\ r.dist >= 0
  \* in half units, so that the squares stay small
  /\ LET q == r.dist \div 500 IN (q - 1) * q <= 4 * (c.x * c.x + c.y * c.y) /\ (q + 1) * (q + 1) >= 4 * (c.x * c.x + c.y * c.y)
  /\ (c.x = 0 /\ c.y = 0) => r.dist = 0
  /\ (c.x # 0 \/ c.y # 0) =>
       /\ r.bearing >= 0 /\ r.bearing <= 360010
       \* west is 0, south 90, east 180, north 270
       /\ Near((r.dist \div 100) * Cos(r.bearing), -10 * 10000 * c.x, 20 * (r.dist \div 100) + 10000)
       /\ Near((r.dist \div 100) * Sin(r.bearing), -10 * 10000 * c.y, 20 * (r.dist \div 100) + 10000)
       /\ (c.x = 0 \/ c.y = 0 \/ Abs(c.x) = Abs(c.y)) => Turn(r.bearing, PolarDirection(c.x, c.y)) <= 15

-----------------------------------------------------------------------------
Valid(a) == Abs(a[1]) <= 360000 /\ Abs(a[2]) <= 360000
Missing == -361000
\* rows are <<name, lon, lat>> in thousandths; the last row of a station counts
Row(c, n) == LET S == {i \in 1..Len(c.rows) : c.rows[i].name = n} IN IF S = {} \/ ~c.file THEN [name |-> n, lon |-> Missing, lat |-> Missing] ELSE c.rows[Max(S)]
Stations(c) == [i \in 1..Len(c.names) |-> LET r == Row(c, c.names[i]) IN <<IF Valid(<<r.lon, r.lat>>) THEN 1 ELSE 0, r.lon, r.lat>>]
Lons(ps) == {ps[i][1] : i \in 1..Len(ps)}
Lats(ps) == {ps[i][2] : i \in 1..Len(ps)}
Box(ps) == IF ps = <<>> THEN <<<<-Missing, -Missing>>, <<Missing, Missing>>>>
           ELSE <<<<Min(Lons(ps)), Min(Lats(ps))>>, <<Max(Lons(ps)), Max(Lats(ps))>>>>

\* laws decide whether an answer may be given
Law(P(_, _), c, st) == IF "res" \in DOMAIN c /\ c.res[1] = "ok" THEN IF P(c, c.res[2]) THEN One(c.res, st) ELSE {} ELSE {}
AngleOk(c, r) == /\ Near(r[1], (c.d * 31415) \div 18000, 1) /\ r[2] = c.d /\ Near(r[3] * 10, r[1], 10)

Apply(op, c, st) ==
  CASE op = "new" -> One(<<"ok">>, Init0)
    [] op = "between" -> Law(BetweenOk, c, st)
    [] op = "bearing" -> Law(BearingOk, c, st)
    [] op = "move" -> Law(MoveOk, c, st)
    [] op = "cartesian" -> Law(CartesianOk, c, st)
    [] op = "to_gps" -> One(<<"ok", CASE c.p[3] = 1 -> <<0, 90003>> [] c.p[3] = -1 -> <<0, -90003>> [] c.p[1] = 1 -> <<0, 0>> [] c.p[1] = -1 -> <<180005, 0>>
                                      [] c.p[2] = 1 -> <<90003, 0>> [] OTHER -> <<-90003, 0>>>>, st)
    [] op = "polar" -> Law(PolarOk, c, st)
    [] op = "angle" -> Law(AngleOk, c, st)
    [] op = "valid" -> One(<<"ok", Valid(c.a)>>, st)
    [] op = "missing" -> One(<<"ok", <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>>>, st)
    [] op = "box" -> One(<<"ok", Box(c.ps)>>, st)
    [] op = "stations" -> One(<<"ok", Stations(c)>>, st)
=============================================================================
