---- MODULE DriveS ----
\* A differential drive: wheels turning to poses, and back.  Angles are whole degrees, lengths whole, answers multiplied to be whole.
\* s.b, s.r: axis length and wheel radius of two robots;  s.p: a robot on a grid, facing one of four ways
EXTENDS Util
Init0 == [b |-> <<1, 1>>, r |-> <<1, 1>>, p |-> <<0, 0, 0>>]
\* a is in (-n/2, n/2]
Wrap(a, n) == LET m == ((a % n) + n) % n IN IF 2 * m > n THEN m - n ELSE m
C15 == <<1000, 966, 866, 707, 500, 259, 0>>
RECURSIVE Cos(_)
\* a thousand times the cosine of multiples of 15 degrees
Cos(d) == LET m == Abs(Wrap(d, 360)) IN IF m <= 90 THEN C15[(m \div 15) + 1] ELSE 0 - C15[((180 - m) \div 15) + 1]
Sin(d) == Cos(d - 90)
Cq(q) == Cos(90 * q) \div 1000
Sq(q) == Sin(90 * q) \div 1000
\* along, and turning by quarters
Move(p, d, q) == <<p[1] + (d * Cq(p[3])), p[2] + (d * Sq(p[3])), Wrap(p[3] + q, 4)>>
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "new" -> IF c[3] < 1 \/ c[4] < 1 THEN {} ELSE One([s EXCEPT !.b[c[2] + 1] = c[3], !.r[c[2] + 1] = c[4]], "ok")      \* <<new, k, axis length, radius>>
    [] op = "copy" -> One([s EXCEPT !.b[c[2] + 1] = s.b[2 - c[2]], !.r[c[2] + 1] = s.r[2 - c[2]]], "ok")
    \* <<wheels, k, left, right>>: degrees: twice the way in radius degrees, aside, the turn in degrees times the axis length
    [] op = "wheels" -> LET b == s.b[c[2] + 1]  r == s.r[c[2] + 1] IN One(s, JoinI(<<r * (c[3] + c[4]), 0, Wrap(r * (c[4] - c[3]), 360 * b)>>))
    [] op = "base" -> One(s, JoinI(<<c[3], 0, Wrap(c[4], 360)>>))                                            \* <<base, k, way, degrees>>
    [] op = "rates" -> LET b == s.b[c[2] + 1] IN One(s, JoinI(<<(2 * c[3]) - (c[4] * b), (2 * c[3]) + (c[4] * b)>>))   \* <<rates, k, speed, turn>>: left and right times the wheels' diameter
    \* <<between, x, y, degrees, x, y, degrees>>: square of the way, negative if behind; the turn
    [] op = "between" -> LET dx == c[5] - c[2]  dy == c[6] - c[3]  f == (dx * Cos(c[4])) + (dy * Sin(c[4]))  q == (dx * dx) + (dy * dy) IN
                         IF q # 0 /\ Abs(f) < 50 /\ (c[4] # 0 \/ dx # 0) THEN {} ELSE One(s, JoinI(<<IF f < 0 THEN 0 - q ELSE q, Wrap(c[7] - c[4], 360)>>))
    \* drive on: the wheels that take robot k along by d and around by q quarters; where it is, and what was done as seen from the two places
    [] op = "drive" -> LET n == Move(s.p, c[3], c[4]) IN One([s EXCEPT !.p = n], JoinI(<<n[1], n[2], 90 * n[3], c[3], Wrap(90 * c[4], 360)>>))
    [] op = "rest" -> One([s EXCEPT !.p = <<0, 0, 0>>], "ok")
    [] OTHER -> {}
====
