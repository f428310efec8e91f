---- MODULE OdomS ----
\* ecl::odometry: trajectories of poses (x, y, heading) and of odometry samples (pose and twist) as sequences.
EXTENDS Util
\* p: two pose trajectories, o: two odometry trajectories, e: one odometry sample, v: one pose, t: one twist, w: one position
Init0 == [p |-> <<<<>>, <<>>>>, o |-> <<<<>>, <<>>>>, e |-> Rep(6, 0), v |-> Rep(3, 0), t |-> Rep(3, 0), w |-> Rep(2, 0)]
Pre(q, n) == SubSeq(q, 1, n)
Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2])
\* twice the squared distance of c from the segment a-b (exact for the eight compass directions)
Seg2(c, a, b) ==
  LET dx == b[1] - a[1] dy == b[2] - a[2] L == Sq(dx) + Sq(dy) u == (c[1] - a[1]) * dx + (c[2] - a[2]) * dy IN
  IF L = 0 THEN 2 * D2(c, a) ELSE IF u <= 0 THEN 2 * D2(c, a) ELSE IF u >= L THEN 2 * D2(c, b)
  ELSE (2 * Sq((c[1] - a[1]) * dy - (c[2] - a[2]) * dx)) \div L
Compass(q) == \A k \in 1..(Len(q) - 1) : LET dx == Abs(q[k + 1][1] - q[k][1]) dy == Abs(q[k + 1][2] - q[k][2]) IN dx = 0 \/ dy = 0 \/ dx = dy
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Path2(c, q) == IF Len(q) = 1 THEN 2 * D2(c, q[1]) ELSE MinS({Seg2(c, q[k], q[k + 1]) : k \in 1..(Len(q) - 1)})
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Show(q) == "n" \o ToString(Len(q)) \o "," \o JoinI(Flat(q))
Q(s, f, a) == IF f = 0 THEN s.p[a + 1] ELSE s.o[a + 1]
Put(s, f, a, x) == IF f = 0 THEN [s EXCEPT !.p[a + 1] = x] ELSE [s EXCEPT !.o[a + 1] = x]
\* f selects the family: 0 poses, 1 odometry
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "vec" -> LET n == Put(s, c[2], c[3], c[5]) IN One(n, Show(c[5]))                                      \* <<vec, f, a, w, list>>
    [] op = "cat" -> LET x == Q(s, c[2], c[3]) \o Q(s, c[2], c[4]) IN One(Put(s, c[2], c[3], x), Show(x))         \* <<cat, f, a, b>>
    [] op = "cut" -> LET x == Pre(Q(s, c[2], c[3]), Min2(c[4], Len(Q(s, c[2], c[3])))) IN One(Put(s, c[2], c[3], x), Show(x))
    [] op = "grow" -> LET x == Append(Q(s, c[2], c[3]), c[4]) IN One(Put(s, c[2], c[3], x), Show(x))
    [] op = "size" -> LET n == Len(Q(s, c[2], c[3])) IN One(s, ToString(n) \o B(n = 0))
    [] op \in {"at", "set", "front", "back"} /\ Q(s, c[2], c[3]) = <<>> -> {}
    [] op = "at" -> LET x == Q(s, c[2], c[3]) IN One(s, IF c[4] < Len(x) THEN JoinI(x[c[4] + 1]) ELSE "-")
    [] op = "set" -> LET x == Q(s, c[2], c[3]) IN IF c[4] >= Len(x) THEN One(s, "-") ELSE LET y == [x EXCEPT ![c[4] + 1] = c[5]] IN One(Put(s, c[2], c[3], y), Show(y))
    [] op = "front" -> One(s, JoinI(Q(s, c[2], c[3])[1]))
    [] op = "back" -> LET x == Q(s, c[2], c[3]) IN One(s, JoinI(x[Len(x)]))
    [] op = "poses" -> LET y == s.o[c[3] + 1] x == [k \in 1..Len(y) |-> Pre(y[k], 3)] IN One([s EXCEPT !.p[c[2] + 1] = x], Show(x))
    [] op = "twists" -> LET y == s.o[c[2] + 1] IN One(s, Show([k \in 1..Len(y) |-> SubSeq(y[k], 4, 6)]))
    [] op = "path" -> LET q == s.p[c[2] + 1] IN IF q = <<>> \/ ~Compass(q) THEN {} ELSE One(s, ToString(Path2(<<c[4], c[5]>>, q)))   \* <<path, a, w, x, y>>
    [] op = "load" -> LET n == [s EXCEPT !.e = c[2]] IN One(n, JoinI(c[2]))
    [] op = "eset" -> One([s EXCEPT !.e[c[2]] = c[3]], JoinI([s.e EXCEPT ![c[2]] = c[3]]))
    [] op = "vset" -> One([s EXCEPT !.v[c[2]] = c[3]], JoinI([s.v EXCEPT ![c[2]] = c[3]]))
    [] op = "tset" -> One([s EXCEPT !.t[c[2]] = c[3]], JoinI([s.t EXCEPT ![c[2]] = c[3]]))
    [] op = "wset" -> One([s EXCEPT !.w[c[2]] = c[3]], JoinI([s.w EXCEPT ![c[2]] = c[3]]))
    [] op = "eget" -> One(s, JoinI(s.e))
    [] op = "epart" -> One(s, JoinI(Pre(s.e, 3)) \o ";" \o JoinI(SubSeq(s.e, 4, 6)) \o ";" \o JoinI(Pre(s.e, 2)) \o ";" \o JoinI(Pre(s.v, 2)))
    [] op = "vget" -> One(s, JoinI(s.v))
    [] op = "tget" -> One(s, JoinI(s.t))
    [] op = "wget" -> One(s, JoinI(s.w))
    [] op = "dist" -> One(s, ToString(LET a == s.e b == c[2] d == s.v IN CASE c[3] \in {0, 1, 2, 3} -> D2(a, b) [] c[3] = 4 -> D2(d, a)))  \* <<dist, other, which>>
    [] OTHER -> {}
Inv(s) == \A a \in 1..2 : (\A k \in 1..Len(s.p[a]) : Len(s.p[a][k]) = 3) /\ (\A k \in 1..Len(s.o[a]) : Len(s.o[a][k]) = 6)
====
