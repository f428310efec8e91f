---- MODULE Util ----
\* Helpers shared by the specifications.
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE JoinI(_), JoinS(_)
\* <<1,2,3>> -> "1,2,3"
JoinI(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN ToString(q[1])
            ELSE ToString(q[1]) \o "," \o JoinI(Tail(q))
\* <<"a","b">> -> "a,b"
JoinS(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o JoinS(Tail(q))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
\* C-like truncating division and remainder (TLA+ \div and % floor)
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)
\* single outcome
One(st, ans) == {[s |-> st, r |-> ans]}
Rep(n, x) == [i \in 1..n |-> x]
RECURSIVE SumS(_)
SumS(q) == IF q = <<>> THEN 0 ELSE q[1] + SumS(Tail(q))
Ch(str, i) == SubSeq(str, i, i)
B(x) == IF x THEN "1" ELSE "0"
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
RECURSIVE RepS(_, _)
RepS(str, n) == IF n <= 0 THEN "" ELSE str \o RepS(str, n - 1)
====
