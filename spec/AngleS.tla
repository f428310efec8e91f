---- MODULE AngleS ----
\* ecl_geometry angles and line segments.  Angles are whole degrees, always held in (-180, 180]; two slots.
EXTENDS Util
Init0 == <<0, 0>>
Wrap(d) == LET m == ((d % 360) + 360) % 360 IN IF m > 180 THEN m - 360 ELSE m
A(s, k) == s[k + 1]
Cos90(d) == LET m == Wrap(d) IN IF m = 0 THEN 1 ELSE IF m = 180 THEN -1 ELSE 0
Sin90(d) == LET m == Wrap(d) IN IF m = 90 THEN 1 ELSE IF m = -90 THEN -1 ELSE 0
SqD(x1, y1, x2, y2) == (x1 - x2) * (x1 - x2) + (y1 - y2) * (y1 - y2)
\* squared distance from (px, py) to the segment, times Max2(1, squared length)
SegD(x1, y1, x2, y2, px, py) ==
  LET L == SqD(x1, y1, x2, y2)
      dot == (px - x1) * (x2 - x1) + (py - y1) * (y2 - y1)
      cr == (px - x1) * (y2 - y1) - (py - y1) * (x2 - x1)
  IN IF L = 0 THEN SqD(px, py, x1, y1) ELSE IF dot <= 0 THEN L * SqD(px, py, x1, y1) ELSE IF dot >= L THEN L * SqD(px, py, x2, y2) ELSE cr * cr
Set(s, k, d) == {[s |-> [s EXCEPT ![k + 1] = Wrap(d)], r |-> ToString(Wrap(d))]}
Step(s, c) ==
  CASE c[1] \in {"new", "assign", "degs", "rads"} -> Set(s, c[2], c[3])
    [] c[1] = "get" -> One(s, ToString(A(s, c[2])))
    [] c[1] = "degrees" -> One(s, ToString(A(s, c[2])))
    [] c[1] = "plusv" -> One(s, ToString(Wrap(A(s, c[2]) + c[3])))
    [] c[1] = "minusv" -> One(s, ToString(Wrap(A(s, c[2]) - c[3])))
    [] c[1] = "plus" -> One(s, ToString(Wrap(A(s, c[2]) + A(s, c[3]))))
    [] c[1] = "minus" -> One(s, ToString(Wrap(A(s, c[2]) - A(s, c[3]))))
    [] c[1] = "times" -> One(s, ToString(Wrap(A(s, c[2]) * c[3])))
    [] c[1] = "addv" -> Set(s, c[2], A(s, c[2]) + c[3])
    [] c[1] = "subv" -> Set(s, c[2], A(s, c[2]) - c[3])
    [] c[1] = "add" -> Set(s, c[2], A(s, c[2]) + A(s, c[3]))
    [] c[1] = "sub" -> Set(s, c[2], A(s, c[2]) - A(s, c[3]))
    [] c[1] = "mul" -> Set(s, c[2], A(s, c[2]) * c[3])
    [] c[1] = "rot" -> Set(s, c[3], A(s, c[2]))            \* slot c3 from the rotation matrix of slot c2
    [] c[1] = "mat" -> One(s, JoinI(<<Cos90(A(s, c[2])), -Sin90(A(s, c[2])), Sin90(A(s, c[2])), Cos90(A(s, c[2]))>>))   \* multiples of 90 degrees
    [] c[1] = "wrap" -> One(s, ToString(Wrap(c[2])))
    [] c[1] = "conv" -> One(s, ToString(c[2]) \o "," \o ToString(c[2]))   \* degrees -> radians -> degrees; radians in units of pi/180
    \* segments
    [] c[1] = "line" -> One(s, IF c[2] = c[4] THEN JoinI(<<1, 0, c[2]>>)      \* x = C
                               ELSE LET dx == c[4] - c[2] dy == c[5] - c[3] IN JoinI(<<-dy, 1, -c[3] * dx + c[2] * dy>>))   \* A dx, B, C dx
    [] c[1] = "dist" -> One(s, ToString(SegD(c[2], c[3], c[4], c[5], c[6], c[7])))
\* the segment distance is symmetric in the end points, zero exactly on the segment, and never more than the distance to an end
SegOK(x1, y1, x2, y2, px, py) == LET d == SegD(x1, y1, x2, y2, px, py) L == Max2(1, SqD(x1, y1, x2, y2)) IN
  d = SegD(x2, y2, x1, y1, px, py) /\ d <= L * SqD(px, py, x1, y1) /\ d >= 0
Inv(s) == \A k \in 1..2 : s[k] > -181 /\ s[k] <= 180
====
