---- MODULE SophusS ----
\* Rigid transformations: interpolation, conversion, and their formatter.
EXTENDS Util
Init0 == [dbg |-> 1, on |-> 0, w |-> -1, p |-> 2, ready |-> 0, any |-> 0, t |-> <<>>, q |-> <<>>, tw |-> 0, tp |-> 0, tmp |-> 0]
\* rotation about z by multiples of a right angle
Cos(d) == CASE d % 360 = 0 -> 1 [] d % 360 = 180 -> -1 [] OTHER -> 0
Sin(d) == CASE d % 360 = 90 -> 1 [] d % 360 = 270 -> -1 [] OTHER -> 0
Turn(d, v) == <<Cos(d) * v[1] - Sin(d) * v[2], Sin(d) * v[1] + Cos(d) * v[2], v[3]>>
V3(v) == ToString(v[1]) \o "," \o ToString(v[2]) \o "," \o ToString(v[3])
RECURSIVE Zeros(_), Pad(_, _)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pad(t, n) == IF Len(t) >= n THEN t ELSE "_" \o Pad(t, n - 1)
\* n quarters with p >= 2 digits after the point, in a field of w characters; as plain as possible
Hundredths(n) == LET h == (Abs(n) % 4) * 25 IN IF h < 10 THEN "0" \o ToString(h) ELSE ToString(h)
Fixed(n, p, w) == Pad((IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 4) \o "." \o Hundredths(n) \o Zeros(p - 2), w)
Plain(n) == (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 4) \o (CASE Abs(n) % 4 = 0 -> "" [] Abs(n) % 4 = 1 -> ".25" [] Abs(n) % 4 = 2 -> ".5" [] OTHER -> ".75")
Text(s, p, w) == "[x:" \o Fixed(s.t[1], p, w) \o "__y:" \o Fixed(s.t[2], p, w) \o "__z:" \o Fixed(s.t[3], p, w) \o "][x:" \o Fixed(2 * s.q[1], p, w) \o "__y:" \o Fixed(2 * s.q[2], p, w) \o "__z:" \o Fixed(2 * s.q[3], p, w) \o "__w:" \o Fixed(2 * s.q[4], p, w) \o "__]"
Step(s, c) == LET op == c[1] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
  \* <<between, kind, from, step, n, k>>: k n-ths of the way to the place n equal steps away is k steps away; a slide turns as much but goes straight
  [] op = "between" -> One(s, ToString(c[6]) \o (IF c[2] = 3 THEN ";straight" ELSE ""))
  [] op = "coplanar" -> One(s, IF c[3] = c[5] THEN "ok" ELSE IF s.dbg = 1 THEN "throw:InvalidArg" ELSE "ok")
  \* <<pose, way, <<x, y, degrees>>, point>>
  [] op = "pose" -> LET m == Turn(c[3][3], c[4]) IN One(s, V3(<<m[1] + c[3][1], m[2] + c[3][2], m[3]>>) \o ";" \o V3(<<c[3][1], c[3][2], c[3][3] % 360>>))
  [] op = "quaternion" -> One(s, V3(Turn(c[3], c[4])))
  \* the frame at the first point that looks at the second
  [] op = "points" -> One(s, V3(<<c[2][1], c[2][2], 0>>) \o ";" \o V3(<<c[2][3], c[2][4], 0>>) \o ";1")
  [] op = "stream" -> One(s, IF c[2] = 1 THEN Plain(c[3][1]) \o "_" \o Plain(c[3][2]) \o "_" \o Plain(c[3][3]) \o "_" \o Plain(2 * c[4][1]) \o "_" \o Plain(2 * c[4][2]) \o "_" \o Plain(2 * c[4][3]) \o "_" \o Plain(2 * c[4][4])
                             ELSE Plain(c[3][1]) \o "_" \o Plain(c[3][2]) \o "_0")
  [] op = "format" -> One([Init0 EXCEPT !.dbg = s.dbg, !.on = 1], "ok")
  [] op = "set" -> LET n == IF c[2] = 1 THEN [s EXCEPT !.w = c[3]] ELSE [s EXCEPT !.p = c[3]] IN One(n, ToString(n.w) \o "," \o ToString(n.p))
  [] op = "give" -> One(IF Len(c) = 3 THEN [s EXCEPT !.t = c[2], !.q = c[3], !.ready = 1] ELSE [s EXCEPT !.t = c[2], !.q = c[3], !.ready = 1, !.tmp = 1, !.tw = c[4], !.tp = c[5]], "ok")
  [] op = "print" -> IF s.ready = 0 THEN One(s, IF s.dbg = 1 THEN "throw:Usage" ELSE "nothing")
                     ELSE One([s EXCEPT !.ready = 0, !.tmp = 0], IF s.tmp = 1 THEN Text(s, s.tp, s.tw) ELSE Text(s, s.p, s.w))
====
