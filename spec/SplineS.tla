---- MODULE SplineS ----
\* ecl_geometry splines.  A cubic spline is described by its pieces, exact rationals over the common denominator 36; the data of the
\* C2 splines are produced from chosen second derivatives at the knots, so that the one spline the data determine is known exactly.
\* A smooth linear spline (integer data) is described by its slopes and the half widths of its corners.
EXTENDS Util
Init0 == [k |-> "none"]
N(q) == Len(q) - 1
H(xs, i) == xs[i + 1] - xs[i]
\* knots values and slopes from second derivatives M (multiples of 6), first value and first slope
RECURSIVE YsOf(_, _, _, _, _), DsOf(_, _, _, _)
YsOf(xs, M, y, d, i) == IF i > N(xs) THEN <<y>>
   ELSE LET h == H(xs, i) IN <<y>> \o YsOf(xs, M, y + d * h + (M[i] \div 2) * h * h + ((M[i + 1] - M[i]) \div 6) * h * h, d + ((M[i] + M[i + 1]) \div 2) * h, i + 1)
DsOf(xs, M, d, i) == IF i > N(xs) THEN <<d>> ELSE <<d>> \o DsOf(xs, M, d + ((M[i] + M[i + 1]) \div 2) * H(xs, i), i + 1)
\* pieces, each coefficient times 36
C2Pieces(xs, M, y, d) == LET ys == YsOf(xs, M, y, d, 1) ds == DsOf(xs, M, d, 1) IN
  [i \in 1..N(xs) |-> <<36 * ys[i], 36 * ds[i], 18 * M[i], (6 * (M[i + 1] - M[i])) \div H(xs, i)>>]
\* Hermite pieces with the slope heuristic: the mean of the neighbouring slopes (h in 1..3, slopes even)
Slope(xs, ys, i) == TDiv(ys[i + 1] - ys[i], H(xs, i))
HeurD(xs, ys, d0, dn) == [i \in 1..Len(xs) |-> IF i = 1 THEN d0 ELSE IF i = Len(xs) THEN dn ELSE TDiv(Slope(xs, ys, i - 1) + Slope(xs, ys, i), 2)]
HermPieces(xs, ys, ds) == [i \in 1..N(xs) |-> LET h == H(xs, i) m == Slope(xs, ys, i) IN
  <<36 * ys[i], 36 * ds[i], TDiv(36 * (3 * m - 2 * ds[i] - ds[i + 1]), h), TDiv(36 * (ds[i] + ds[i + 1] - 2 * m), h * h)>>]
PieceAt(s, q) == CHOOSE i \in 1..N(s.xs) : 4 * s.xs[i] <= q /\ q <= 4 * s.xs[i + 1] /\ (q > 4 * s.xs[i] \/ i = 1)     \* q in quarters
Inside(s, q) == 4 * s.xs[1] <= q /\ q <= 4 * s.xs[Len(s.xs)]
\* value * 2304, slope * 576, second derivative * 144
VAt(s, q) == LET i == PieceAt(s, q) a == q - 4 * s.xs[i] p == s.p[i] IN 64 * p[1] + 16 * a * p[2] + 4 * a * a * p[3] + a * a * a * p[4]
DAt(s, q) == LET i == PieceAt(s, q) a == q - 4 * s.xs[i] p == s.p[i] IN 16 * p[2] + 8 * a * p[3] + 3 * a * a * p[4]
DDAt(s, q) == LET i == PieceAt(s, q) a == q - 4 * s.xs[i] p == s.p[i] IN 8 * p[3] + 6 * a * p[4]
\* --- smooth linear splines.  Corner i (at knot i + 1) of half widths wl, wr
SL(xs, ys) == [i \in 1..N(xs) |-> Slope(xs, ys, i)]
Wl(xs, i, j) == IF i = 1 THEN TDiv(j * H(xs, 1), 5) ELSE TDiv(j * H(xs, i), 10)
Wr(xs, i, j) == IF i = N(xs) - 1 THEN TDiv(j * H(xs, i + 1), 5) ELSE TDiv(j * H(xs, i + 1), 10)
\* the corner's largest acceleration is 3/4 |slope change| / w when it is symmetric; `huge` stands for a bound never reached; a4 = 4 * bound
Fits(xs, m, i, j, a4) == a4 = -1 \/ (Wl(xs, i, j) = Wr(xs, i, j) /\ 3 * Abs(m[i + 1] - m[i]) < Wl(xs, i, j) * a4)
JOf(xs, m, i, a4) == IF m[i] = m[i + 1] THEN 0 ELSE IF \E j \in 1..5 : Fits(xs, m, i, j, a4)
   THEN CHOOSE j \in 1..5 : Fits(xs, m, i, j, a4) /\ \A l \in 1..(j - 1) : ~Fits(xs, m, i, l, a4) ELSE 6
Js(xs, ys, a4) == [i \in 1..(N(xs) - 1) |-> JOf(xs, SL(xs, ys), i, a4)]
\* x in halves
InCorner(s, x) == {i \in 1..(N(s.xs) - 1) : s.j[i] > 0 /\ x > 2 * (s.xs[i + 1] - Wl(s.xs, i, s.j[i])) /\ x <= 2 * (s.xs[i + 1] + Wr(s.xs, i, s.j[i]))}
SegOf(s, x) == CHOOSE i \in 1..N(s.xs) : x >= 2 * s.xs[i] /\ x <= 2 * s.xs[i + 1] /\ (x > 2 * s.xs[i] \/ i = 1)
\* <<value, slope, second derivative>> times k (k chosen so that the result is whole)
SAt(s, x, kk) ==
  LET cs == InCorner(s, x) IN
  IF cs = {} THEN LET i == SegOf(s, x) m == SL(s.xs, s.ys)[i] IN <<kk * s.ys[i] + TDiv(kk * m * (x - 2 * s.xs[i]), 2), kk * m, 0>>
  ELSE LET i == CHOOSE i \in cs : TRUE m == SL(s.xs, s.ys) dm == m[i + 1] - m[i]
           wl == Wl(s.xs, i, s.j[i]) wr == Wr(s.xs, i, s.j[i]) W == wl + wr
           a == x - 2 * (s.xs[i + 1] - wl) yl == s.ys[i + 1] - m[i] * wl yr == s.ys[i + 1] + m[i + 1] * wr
       IN IF wl = wr
          THEN <<kk * yl + TDiv(kk * m[i] * a, 2) + TDiv(kk, 32 * W * W * W) * dm * (4 * a * a * a * W - a * a * a * a),
                 kk * m[i] + TDiv(kk, 32 * W * W * W) * dm * (24 * a * a * W - 8 * a * a * a),
                 TDiv(kk, 32 * W * W * W) * dm * (96 * a * W - 48 * a * a)>>
          ELSE \* an uneven corner is asked at its ends and in its middle only
               IF a = W THEN <<TDiv(kk * (yl + yr), 2) + TDiv(kk, 32) * 5 * W * (m[i] - m[i + 1]), 0, 0>> ELSE <<kk * yr, kk * m[i + 1], 0>>
Mismatch(xs, ys) == Len(xs) # Len(ys)
Cub(xs, p, sm) == [k |-> "cubic", xs |-> xs, p |-> p, c2 |-> sm]
Step(s, c) ==
  CASE c[1] \in {"nat", "clamp"} ->     \* xs, ys, M, d0, dn: ys and dn follow from M and d0
        IF Mismatch(c[2], c[3]) \/ Len(c[2]) < 2 THEN One(s, "throw:OutOfRange")
        ELSE LET ys == YsOf(c[2], c[4], c[3][1], c[5], 1) ds == DsOf(c[2], c[4], c[5], 1) IN
             IF ys # c[3] \/ ds[Len(ds)] # c[6] \/ (c[1] = "nat" /\ (c[4][1] # 0 \/ c[4][Len(ys)] # 0)) THEN {}
             ELSE One(Cub(c[2], C2Pieces(c[2], c[4], c[3][1], c[5]), TRUE), "ok")
    [] c[1] = "heur" -> IF Mismatch(c[2], c[3]) THEN One(s, "throw:OutOfRange")
        ELSE One(Cub(c[2], HermPieces(c[2], c[3], HeurD(c[2], c[3], c[4], c[5])), FALSE), "ok")
    [] c[1] = "at" -> One(s, IF Inside(s, c[2]) THEN ToString(VAt(s, c[2])) ELSE "throw:OutOfRange")
    [] c[1] = "d" -> One(s, IF Inside(s, c[2]) THEN ToString(DAt(s, c[2])) ELSE "throw:OutOfRange")
    [] c[1] = "dd" -> One(s, IF Inside(s, c[2]) THEN ToString(DDAt(s, c[2])) ELSE "throw:OutOfRange")
    [] c[1] = "smooth" -> IF Mismatch(c[2], c[3]) THEN One(s, "throw:OutOfRange")     \* xs, ys, 4 * bound (-1: no bound)
        ELSE LET j == Js(c[2], c[3], c[4]) bad == {i \in DOMAIN j : j[i] = 6} IN
             IF bad # {} THEN One(s, "throw:Constructor:" \o ToString(CHOOSE i \in bad : \A l \in bad : i <= l))
             ELSE One([k |-> "smooth", xs |-> c[2], ys |-> c[3], j |-> j], "ok")
    [] c[1] = "sat" -> One(s, IF 2 * s.xs[1] <= c[2] /\ c[2] <= 2 * s.xs[Len(s.xs)] THEN ToString(SAt(s, c[2], c[3])[1]) ELSE "throw:OutOfRange")
    [] c[1] = "sd" -> One(s, ToString(SAt(s, c[2], c[3])[2]))
    [] c[1] = "sdd" -> One(s, ToString(SAt(s, c[2], c[3])[3]))
    \* tension splines: what any tension must satisfy
    [] c[1] = "tens" -> IF Mismatch(c[2], c[3]) THEN One(s, "throw:OutOfRange") ELSE One([k |-> "tens", xs |-> c[2], ys |-> c[3]], "ok")     \* xs, ys, tension in tenths
    [] c[1] = "tknot" -> One(s, ToString(s.ys[c[2] + 1]))
    [] c[1] = "tjump" -> One(s, "0,0")          \* jump of slope and second derivative at an interior knot
    [] c[1] = "tends" -> One(s, "0,0")          \* second derivatives at the ends
    [] c[1] = "tode" -> One(s, "0,0")           \* residuals, mid segment: second derivative is a sinh arc, value minus it over tau^2 is a chord
    [] c[1] = "tslope" -> One(s, "0,0")         \* the derivatives are those of the value (central differences)
    [] c[1] = "tlin" -> One(s, ToString(s.ys[c[2] + 1] + s.ys[c[2] + 2]))     \* a tight spline is (nearly) straight: twice the value in the middle of a segment
    [] c[1] = "tline" -> LET m == Slope(s.xs, s.ys, 1) IN One(s, ToString(2 * s.ys[1] + m * (c[2] - 2 * s.xs[1])))     \* collinear data, x in halves, twice the value
    [] c[1] = "tout" -> One(s, "throw:OutOfRange")
    [] c[1] = "tfun" -> One(s, JoinI(<<c[3], c[4], c[6], c[7]>>))      \* xi yi zi xf yf zf
\* the specification's own spline is continuous with two derivatives
Continuous(s) == s.k # "cubic" \/ \A i \in 2..N(s.xs) : LET q == 4 * s.xs[i] IN VAt(s, q) = 64 * s.p[i][1] /\ DAt(s, q) = 16 * s.p[i][2]
C2(s) == s.k # "cubic" \/ ~s.c2 \/ \A i \in 2..N(s.xs) : DDAt(s, 4 * s.xs[i]) = 8 * s.p[i][3]
====
