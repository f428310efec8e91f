---- MODULE RandS ----
\* The random number generator as a function of the underlying source, whose values are part of the command (in 64ths of its range).
EXTENDS Util
\* src: values the source still has to give; ph: whether a second gaussian value is in store, and its pair (x1, x2, w numerators over 1024)
Init0 == [src |-> <<>>, st |-> <<>>]
\* polar method: the first pair (u1, u2) whose point lies inside the unit circle, but not in its centre
X(u) == u - 32
W(u, v) == X(u) * X(u) + X(v) * X(v)
Good(u, v) == W(u, v) < 1024 /\ W(u, v) > 0
RECURSIVE Find(_)
Find(q) == IF Len(q) < 2 THEN <<>> ELSE IF Good(q[1], q[2]) THEN q ELSE Find(SubSeq(q, 3, Len(q)))
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "feed" -> One([s EXCEPT !.src = @ \o c[2]], "ok")
    [] op = "uniform" -> IF s.src = <<>> THEN {} ELSE One([s EXCEPT !.src = Tail(@)], ToString(s.src[1]))                          \* times 64
    [] op = "range" -> IF s.src = <<>> THEN {} ELSE One([s EXCEPT !.src = Tail(@)], ToString((2 * s.src[1] - 64) * c[2]))          \* times 64: in [-range, range]
    \* two gaussian values: w = exp(-(y1^2+y2^2)/2), and their direction is that of the accepted point
    [] op = "pair" -> LET q == Find(s.src) IN IF q = <<>> THEN {} ELSE
         One([s EXCEPT !.src = SubSeq(q, 3, Len(q))], JoinI(<<W(q[1], q[2]), 0, IF X(q[1]) * X(q[1]) >= X(q[2]) * X(q[2]) THEN (IF X(q[1]) > 0 THEN 1 ELSE -1) ELSE (IF X(q[2]) > 0 THEN 1 ELSE -1), Len(s.src) - Len(q) + 2>>))
    [] op = "seed" -> One(s, ToString(c[2]))
    [] OTHER -> {}
====
