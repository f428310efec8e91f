---- MODULE PoseS ----
\* ecl_geometry poses.  Plane poses <<x, y, q>> with q quarter turns, spatial poses <<R, t>> with R one of the 24 rotations of the cube
\* (rows, integers) and integer t: the group operations are exact.  s = [p |-> two plane poses, q |-> two spatial poses].
EXTENDS Util
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Z3 == <<0, 0, 0>>
Init0 == [p |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, q |-> <<<<Id3, Z3>>, <<Id3, Z3>>>>]
Cs(q) == CASE q = 0 -> 1 [] q = 1 -> 0 [] q = 2 -> -1 [] q = 3 -> 0
Sn(q) == CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 2 -> 0 [] q = 3 -> -1
M4(q) == ((q % 4) + 4) % 4
Rot(q, v) == <<Cs(q) * v[1] - Sn(q) * v[2], Sn(q) * v[1] + Cs(q) * v[2]>>
Mul(a, b) == LET r == Rot(a[3], <<b[1], b[2]>>) IN <<a[1] + r[1], a[2] + r[2], M4(a[3] + b[3])>>
Inv2(a) == LET r == Rot(M4(-a[3]), <<-a[1], -a[2]>>) IN <<r[1], r[2], M4(-a[3])>>
Rel(a, b) == Mul(Inv2(b), a)                 \* a.relative(b)
Deg(q) == IF q = 3 THEN -90 ELSE 90 * q      \* headings live in (-180, 180]
Sh(a) == JoinI(<<a[1], a[2], Deg(a[3])>>)
Mat2(q) == JoinI(<<Cs(q), -Sn(q), Sn(q), Cs(q)>>)
\* spatial
MV(R, v) == [i \in 1..3 |-> R[i][1] * v[1] + R[i][2] * v[2] + R[i][3] * v[3]]
MM(R, S) == [i \in 1..3 |-> [j \in 1..3 |-> R[i][1] * S[1][j] + R[i][2] * S[2][j] + R[i][3] * S[3][j]]]
Tr(R) == [i \in 1..3 |-> [j \in 1..3 |-> R[j][i]]]
Add3(u, v) == [i \in 1..3 |-> u[i] + v[i]]
Neg3(v) == [i \in 1..3 |-> -v[i]]
Mul3(a, b) == <<MM(a[1], b[1]), Add3(a[2], MV(a[1], b[2]))>>
Inv3(a) == <<Tr(a[1]), Neg3(MV(Tr(a[1]), a[2]))>>
Lift(p) == <<<<<<Cs(p[3]), -Sn(p[3]), 0>>, <<Sn(p[3]), Cs(p[3]), 0>>, <<0, 0, 1>>>>, <<p[1], p[2], 0>>>>
\* k quarter turns about axis 1..3
Ax(a, k) == LET c == Cs(k) n == Sn(k) IN CASE a = 1 -> <<<<1, 0, 0>>, <<0, c, -n>>, <<0, n, c>>>> [] a = 2 -> <<<<c, 0, n>>, <<0, 1, 0>>, <<-n, 0, c>>>> [] a = 3 -> <<<<c, -n, 0>>, <<n, c, 0>>, <<0, 0, 1>>>>
Sh3(a) == JoinI(a[1][1]) \o ";" \o JoinI(a[1][2]) \o ";" \o JoinI(a[1][3]) \o ";" \o JoinI(a[2])
P(s, k) == s.p[k + 1]
Q(s, k) == s.q[k + 1]
Put(s, k, v) == [s EXCEPT !.p[k + 1] = v]
Put3(s, k, v) == [s EXCEPT !.q[k + 1] = v]
Res(s, k, v) == One(Put(s, k, v), Sh(v))
Res3(s, k, v) == One(Put3(s, k, v), Sh3(v))
\* ---- rotations by the angles of the 3-4-5 triangles: every rotation in fifths, whole numbers throughout
C5 == <<5, 0, -5, 0, 3, -3, 3, -3, 4, -4, 4, -4>>
S5 == <<0, 5, 0, -5, 4, 4, -4, -4, 3, 3, -3, -3>>
\* a plane pose <<x, y, r>>: tenths; the answers: positions in 250ths, rotation in 25ths
A2(x, y, c, n) == JoinI(<<x, y, c, n>>)
AnyMul(a, b) == LET c == C5[a[3] + 1] n == S5[a[3] + 1] d == C5[b[3] + 1] m == S5[b[3] + 1] IN
  A2(25 * a[1] + 5 * (c * b[1] - n * b[2]), 25 * a[2] + 5 * (n * b[1] + c * b[2]), c * d - n * m, c * m + n * d)
AnyInv(a) == LET c == C5[a[3] + 1] n == S5[a[3] + 1] IN A2(-5 * (c * a[1] + n * a[2]), 5 * (n * a[1] - c * a[2]), 5 * c, -5 * n)
AnyRel(a, b) == LET c == C5[b[3] + 1] n == S5[b[3] + 1] d == C5[a[3] + 1] m == S5[a[3] + 1] x == a[1] - b[1] y == a[2] - b[2] IN
  A2(5 * (c * x + n * y), 5 * (c * y - n * x), c * d + n * m, c * m - n * d)
AnyGet(a) == JoinI(<<25 * a[1], 25 * a[2], 5 * C5[a[3] + 1], -5 * S5[a[3] + 1], 5 * S5[a[3] + 1], 5 * C5[a[3] + 1]>>)
\* spatial: two rotations about axes, in 25ths
Ax5(a, r) == LET c == C5[r + 1] n == S5[r + 1] IN CASE a = 1 -> <<<<5, 0, 0>>, <<0, c, -n>>, <<0, n, c>>>> [] a = 2 -> <<<<c, 0, n>>, <<0, 5, 0>>, <<-n, 0, c>>>> [] a = 3 -> <<<<c, -n, 0>>, <<n, c, 0>>, <<0, 0, 5>>>>
Of3(v) == <<MM(Ax5(v[2], v[3]), Ax5(v[4], v[5])), <<v[6], v[7], v[8]>>>>
\* m: 25ths * k, t: whole numbers * j; the answers: rotation in 625ths, translation in 250ths
S3(m, k, t, j) == JoinI(<<m[1][1] * k, m[1][2] * k, m[1][3] * k, t[1] * j>>) \o ";" \o JoinI(<<m[2][1] * k, m[2][2] * k, m[2][3] * k, t[2] * j>>) \o ";" \o JoinI(<<m[3][1] * k, m[3][2] * k, m[3][3] * k, t[3] * j>>) \o ";"
Any3(f, a, b) ==
  CASE f = "get" -> S3(a[1], 25, a[2], 250)
    [] f = "inv" -> S3(Tr(a[1]), 25, Neg3(MV(Tr(a[1]), a[2])), 10)
    [] f = "rel" -> S3(MM(Tr(b[1]), a[1]), 1, MV(Tr(b[1]), Add3(a[2], Neg3(b[2]))), 10)
    [] OTHER -> S3(MM(a[1], b[1]), 1, Add3([i \in 1..3 |-> 25 * a[2][i]], MV(a[1], b[2])), 10)
Step(s, c) ==
  IF c[1] = "any" THEN LET a == <<c[4], c[5], c[6]>>  b == <<c[8], c[9], c[10]>> IN
    One(s, CASE c[2] = "get" -> AnyGet(a) [] c[2] = "mul" -> AnyMul(a, b) [] c[2] = "rel" -> AnyRel(a, b) [] c[2] = "inv" -> AnyInv(a)
             [] c[2] = "lift" -> S3([i \in 1..3 |-> [j \in 1..3 |-> 5 * Ax5(3, a[3])[i][j]]], 25, <<a[1], a[2], 0>>, 25))
  ELSE IF c[1] = "any3" THEN One(s, Any3(c[2], Of3(c[3]), Of3(c[4])))
  ELSE
  CASE c[1] = "set" -> Res(s, c[2], <<c[4], c[5], M4(c[6])>>)          \* slot, way, x, y, quarter turns
    [] c[1] = "x" -> Res(s, c[2], [P(s, c[2]) EXCEPT ![1] = c[3]])
    [] c[1] = "y" -> Res(s, c[2], [P(s, c[2]) EXCEPT ![2] = c[3]])
    [] c[1] = "head" -> Res(s, c[2], [P(s, c[2]) EXCEPT ![3] = M4(c[4])])  \* slot, way, quarter turns
    [] c[1] = "trans" -> Res(s, c[2], <<c[4], c[5], P(s, c[2])[3]>>)     \* slot, way, x, y
    [] c[1] = "ident" -> Res(s, c[2], <<0, 0, 0>>)
    [] c[1] = "get" -> One(s, Sh(P(s, c[2])) \o ";" \o Mat2(P(s, c[2])[3]))
    [] c[1] = "copy" -> Res(s, c[3], P(s, c[2]))                         \* c[2] -> c[3], through the other storage
    [] c[1] = "mul" -> One(s, Sh(Mul(P(s, c[2]), P(s, c[3]))))
    [] c[1] = "imul" -> Res(s, c[2], Mul(P(s, c[2]), P(s, c[3])))
    [] c[1] = "inv" -> One(s, Sh(Inv2(P(s, c[2]))))
    [] c[1] = "rel" -> One(s, Sh(Rel(P(s, c[2]), P(s, c[3]))))
    [] c[1] = "show" -> One(s, "[ " \o JoinI(<<P(s, c[2])[1], P(s, c[2])[2]>>))
    [] c[1] = "set3" -> Res3(s, c[2], <<Ax(c[4], M4(c[5])), <<c[6], c[7], c[8]>>>>)   \* slot, way, axis, quarter turns, translation
    [] c[1] = "lift" -> Res3(s, c[4], Lift(P(s, c[2])))                       \* plane slot, way, spatial slot
    [] c[1] = "t3" -> Res3(s, c[2], <<Q(s, c[2])[1], <<c[3], c[4], c[5]>>>>)
    [] c[1] = "r3" -> Res3(s, c[2], <<Ax(c[3], M4(c[4])), Q(s, c[2])[2]>>)
    [] c[1] = "get3" -> One(s, Sh3(Q(s, c[2])))
    [] c[1] = "copy3" -> Res3(s, c[3], Q(s, c[2]))
    [] c[1] = "mul3" -> One(s, Sh3(Mul3(Q(s, c[2]), Q(s, c[3]))))
    [] c[1] = "imul3" -> Res3(s, c[2], Mul3(Q(s, c[2]), Q(s, c[3])))
    [] c[1] = "inv3" -> One(s, Sh3(Inv3(Q(s, c[2]))))
    [] c[1] = "rel3" -> One(s, Sh3(Mul3(Inv3(Q(s, c[3])), Q(s, c[2]))))
\* group laws of the specification
Group2(s) == LET a == s.p[1] b == s.p[2] IN
  Mul(a, Inv2(a)) = <<0, 0, 0>> /\ Mul(Inv2(a), a) = <<0, 0, 0>> /\ Mul(b, Rel(a, b)) = a /\ Mul(Mul(a, b), a) = Mul(a, Mul(b, a)) /\ Inv2(Mul(a, b)) = Mul(Inv2(b), Inv2(a))
Group3(s) == LET a == s.q[1] b == s.q[2] IN Mul3(a, Inv3(a)) = <<Id3, Z3>> /\ Mul3(Mul3(a, b), a) = Mul3(a, Mul3(b, a)) /\ Mul3(b, Mul3(Inv3(b), a)) = a
LiftOK(s) == Lift(Mul(s.p[1], s.p[2])) = Mul3(Lift(s.p[1]), Lift(s.p[2]))
Inv(s) == Group2(s) /\ Group3(s) /\ LiftOK(s)
====
