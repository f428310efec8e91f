---- MODULE PointS ----
\* Cartesian points (plane, space, any dimension) and homogeneous points.
EXTENDS Util
\* p: two plane points, q: two space points, n: one point of dimension 4, h: one homogeneous point (its first three coordinates)
Init0 == [p |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, n |-> <<0, 0, 0, 0>>, h |-> <<0, 0, 0>>]
Sq(x) == x * x
RotQ(v, k) == LET m == k % 4 IN CASE m = 0 -> v [] m = 1 -> <<-v[2], v[1]>> [] m = 2 -> <<-v[1], -v[2]>> [] OTHER -> <<v[2], -v[1]>>
\* the direction of a vector along the axes and diagonals, in degrees
Dir(v) == CASE v[2] = 0 /\ v[1] >= 0 -> 0 [] v[2] = 0 -> 180 [] v[1] = 0 /\ v[2] > 0 -> 90 [] v[1] = 0 -> -90
            [] v[1] = v[2] /\ v[1] > 0 -> 45 [] v[1] = v[2] -> -135 [] v[1] = -v[2] /\ v[1] > 0 -> -45 [] v[1] = -v[2] -> 135
Axial(v) == v[1] = 0 \/ v[2] = 0 \/ Abs(v[1]) = Abs(v[2])
Wh(v) == "[ " \o ToString(v[1]) \o " " \o ToString(v[2]) \o (IF Len(v) = 3 THEN " " \o ToString(v[3]) ELSE "") \o " ]"
P(s, a, v) == One([s EXCEPT !.p[a + 1] = v], JoinI(v))
V3(s, a, v) == One([s EXCEPT !.q[a + 1] = v], JoinI(v))
Step(s, c) ==
  LET op == c[1] x == IF Len(c) > 1 /\ op \notin {"nset", "nget", "hset", "hget", "hvec4", "nnew", "hxyz"} THEN s.p[c[2] + 1] ELSE <<0, 0>> IN
  CASE op = "new" -> P(s, c[2], <<c[4], IF c[3] = 0 THEN c[4] ELSE c[5]>>)                     \* <<new, a, way, x, y>>  way 0: both coordinates x
    [] op = "setx" -> P(s, c[2], <<c[3], x[2]>>)
    [] op = "sety" -> P(s, c[2], <<x[1], c[3]>>)
    [] op = "at" -> One(s, IF c[3] \in {0, 1} THEN ToString(x[c[3] + 1]) ELSE "OutOfRange")
    [] op = "put" -> IF c[3] \in {0, 1} THEN P(s, c[2], [x EXCEPT ![c[3] + 1] = c[4]]) ELSE One(s, "OutOfRange")
    [] op = "copy" -> P(s, c[2], s.p[c[3] + 1])
    [] op = "eq" -> LET y == s.p[c[3] + 1] IN One(s, B(x = y) \o B(x # y))
    [] op = "rot" -> P(s, c[2], RotQ(x, c[3]))
    [] op = "angle" -> IF Axial(x) THEN One(s, ToString(Dir(x))) ELSE {}
    [] op = "inc" -> LET y == s.p[c[3] + 1] IN P(s, c[2], <<x[1] + y[1], x[2] + y[2]>>)
    [] op = "plus" -> LET y == s.p[c[3] + 1] IN P(s, c[4], <<x[1] + y[1], x[2] + y[2]>>)
    [] op = "minus" -> LET y == s.p[c[3] + 1] IN P(s, c[4], <<x[1] - y[1], x[2] - y[2]>>)
    [] op = "times" -> One(s, JoinI(<<x[1] * c[3], x[2] * c[3]>>))
    [] op = "dist" -> LET y == s.p[c[3] + 1] IN One(s, ToString(Sq(x[1] - y[1]) + Sq(x[2] - y[2])))      \* squared
    [] op = "norm" -> One(s, ToString(Sq(x[1]) + Sq(x[2])))
    [] op = "unit" -> One(s, ToString(Sq(x[1]) + Sq(x[2])) \o "," \o (IF x = <<0, 0>> THEN "1,0" ELSE JoinI(x)))   \* length (squared), direction times length
    [] op = "show" -> One(s, Wh(x) \o "2")
    [] op = "q3" -> V3(s, c[2], CASE c[3] = 0 -> <<c[4], c[4], c[4]>> [] OTHER -> <<c[4], c[5], c[6]>>)
    [] op = "q3set" -> V3(s, c[2], [s.q[c[2] + 1] EXCEPT ![c[3] + 1] = c[4]])
    [] op = "q3copy" -> V3(s, c[2], s.q[c[3] + 1])
    [] op = "q3show" -> One(s, Wh(s.q[c[2] + 1]) \o "3")
    [] op = "nnew" -> LET v == IF c[2] = 0 THEN Rep(4, c[3][1]) ELSE c[3] IN One([s EXCEPT !.n = v], JoinI(v))
    [] op = "nset" -> IF c[2] < 4 THEN One([s EXCEPT !.n[c[2] + 1] = c[3]], JoinI([s.n EXCEPT ![c[2] + 1] = c[3]])) ELSE One(s, "OutOfRange")
    [] op = "nget" -> One(s, IF c[2] < 4 THEN ToString(s.n[c[2] + 1]) ELSE "OutOfRange")
    [] op = "hxyz" -> LET v == CASE c[2] = 0 -> Rep(3, c[3]) [] OTHER -> <<c[3], c[4], c[5]>> IN One([s EXCEPT !.h = v], JoinI(v) \o ",1")
    [] op = "hvec4" -> IF c[6] = 1 THEN One([s EXCEPT !.h = <<c[3], c[4], c[5]>>], JoinI(<<c[3], c[4], c[5], 1>>)) ELSE One(s, "InvalidInput")
    [] op = "hset" -> One([s EXCEPT !.h[c[2] + 1] = c[3]], JoinI([s.h EXCEPT ![c[2] + 1] = c[3]]) \o ",1")
    [] op = "hget" -> One(s, JoinI(s.h) \o ",1" \o Wh(s.h))
    [] OTHER -> {}
Inv(s) == \A a \in 1..2 : Len(s.p[a]) = 2 /\ Len(s.q[a]) = 3
====
