---- MODULE StatS ----
\* Statistics: running mean and variance of whole numbers, and the ellipses and ellipsoids of covariance matrices that are
\* made of their axes (rational rotations) and lengths, so that what must come out is known exactly.
EXTENDS Util
Init0 == [d |-> <<<<>>, <<>>>>]
RECURSIVE Sq2(_), Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Sq2(q) == IF q = <<>> THEN 0 ELSE q[1] * q[1] + Sq2(Tail(q))
\* mean times n, variance times n (n - 1)
Show(q) == LET n == Len(q) IN ToString(n) \o "," \o ToString(Sum(q)) \o "," \o ToString(IF n < 2 THEN 0 ELSE (n * Sq2(q)) - (Sum(q) * Sum(q)))
\* directions, up to their sign
Canon(v) == LET f == {i \in 1..Len(v) : v[i] # 0} IN IF f = {} THEN v ELSE IF v[CHOOSE i \in f : \A j \in f : i <= j] < 0 THEN [i \in 1..Len(v) |-> 0 - v[i]] ELSE v
\* axes of a rotation by the quaternion q, times its squared length
Axes(q) == LET a == q[1]  b == q[2]  c == q[3]  d == q[4] IN
  << <<(a*a)+(b*b)-(c*c)-(d*d), 2*((b*c)+(a*d)), 2*((b*d)-(a*c))>>, <<2*((b*c)-(a*d)), (a*a)-(b*b)+(c*c)-(d*d), 2*((c*d)+(a*b))>>, <<2*((b*d)+(a*c)), 2*((c*d)-(a*b)), (a*a)-(b*b)-(c*c)+(d*d)>> >>
Step(s, c) ==
  LET op == c[1]  k == c[2] + 1 IN
  CASE op = "push" -> One([s EXCEPT !.d[k] = Append(@, c[3])], "ok")
    [] op = "clear" -> One([s EXCEPT !.d[k] = <<>>], "ok")
    [] op = "copy" -> One(s, "ok")                                        \* carry on with a copy
    [] op = "stat" -> One(s, Show(s.d[k]))
    \* <<e2, kind, x, y, z, longer, shorter>>: the longer axis is (x, y) / z;  lengths, axes times z, rotation, squared intercepts times what makes them whole
    [] op = "e2" -> LET x == c[3]  y == c[4]  z == c[5]  l == c[6]  m == c[7]  w == (z * z) * ((l * l) * (m * m)) IN
                    IF (x * x) + (y * y) # z * z \/ l < m \/ m < 1 THEN {}
                    ELSE One(s, JoinI(<<l, m>>) \o "|" \o (IF l = m THEN "any" ELSE JoinI(Canon(<<x, y>>)) \o ";" \o JoinI(Canon(<<0 - y, x>>)) \o ";" \o JoinI(Canon(<<x, y>>))) \o "|" \o JoinI(<<w, w>>) \o "|square")
    \* <<e2t, kind, a, d, e>>: diagonal a, d, and 2^-e besides: the axes are those of the matrix
    [] op = "e2t" -> LET a == c[3]  d == c[4] IN IF a = d \/ a < 1 \/ d < 1 \/ c[5] < 30 THEN {} ELSE One(s, JoinI(<<Max2(a, d), Min2(a, d)>>) \o "|" \o (IF a > d THEN "1,0;0,1" ELSE "0,1;1,0") \o "|square")
    \* <<e2n, kind, a, e>>: diagonal a, a (1 + 2^-e)
    [] op = "e2n" -> IF c[3] < 1 \/ c[4] < 20 THEN {} ELSE One(s, JoinI(<<c[3], c[3]>>) \o "|square")
    \* <<e3, kind, quaternion, lengths, right handed>>: lengths increasing;  each with its axis if lengths differ
    [] op = "e3" -> LET A == Axes(c[3])  l == c[4]  one == \A i \in 1..3, j \in 1..3 : i = j \/ l[i] # l[j] IN
                    IF l[1] < 1 \/ l[1] > l[2] \/ l[2] > l[3] \/ c[3] = <<0, 0, 0, 0>> THEN {}
                    ELSE One(s, JoinI(l) \o "|" \o (IF one THEN JoinI(Canon(A[1])) \o ";" \o JoinI(Canon(A[2])) \o ";" \o JoinI(Canon(A[3])) ELSE "any") \o "|square|same" \o (IF c[5] = 1 THEN "|right" ELSE ""))
    [] op = "e0" -> One(s, IF c[3] = 2 THEN "1,1|1,0,0,1" ELSE "1,1,1|1,0,0,0,1,0,0,0,1")       \* <<e0, kind, dimension>>
    [] OTHER -> {}
====
