---- MODULE ClockS ----
\* Sleeping, snoozing, measuring: everything in ecl_time that stands on a clock.  The clocks are part of the state.
EXTENDS Util
G == 1000000000
Norm(s, n) == IF n >= G THEN <<s + 1, n - G>> ELSE IF n < 0 THEN <<s - 1, n + G>> ELSE <<s, n>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
MaxT(a, b) == IF Lt(a, b) THEN b ELSE a
\* ck: monotonic and cpu clock; d, p: deadline and period of the snooze; req: pending request of each sleep; err: how the next sleep fails; w: start and split time of the watches; td: durations in eighths of a second
Init0 == [ck |-> <<<<0, 0>>, <<0, 0>>>>, d |-> <<0, 0>>, p |-> <<0, 10000000>>, req |-> Rep(4, <<0, 0>>), err |-> "", w |-> Rep(2, <<<<0, 0>>, <<0, 0>>>>), td |-> <<>>]
\* kind 0 seconds, 1 milli-, 2 micro-, 3 nanoseconds
Per == <<1, 1000, 1000000, 1000000000>>
Sp(kind, n) == LET u == Per[kind + 1] IN <<n \div u, (n % u) * (G \div u)>>
Sleep(s, kind, v) == LET n == [s EXCEPT !.req[kind + 1] = v] IN IF s.err # "" THEN One([n EXCEPT !.err = ""], s.err) ELSE One([n EXCEPT !.ck[1] = Add(@, v)], JoinI(v))
Sq(x) == x * x
RECURSIVE SumSq(_)
SumSq(q) == IF q = <<>> THEN 0 ELSE Sq(q[1]) + SumSq(Tail(q))
Now(s, k) == s.ck[k + 1]
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "tick" -> One([s EXCEPT !.ck[c[2] + 1] = Add(@, <<c[3], c[4]>>)], "ok")
    \* ---- snooze
    [] op = "period" -> One([s EXCEPT !.p = <<c[3], c[4]>>, !.d = Now(s, 0)], "ok")            \* <<period, way, sec, nsec, validate>>
    [] op = "getp" -> One(s, JoinI(s.p))
    [] op = "init" -> One([s EXCEPT !.d = Now(s, 0)], "ok")
    [] op = "snooze" -> LET n == Add(s.d, s.p) e == IF Lt(n, Now(s, 0)) THEN Add(Now(s, 0), s.p) ELSE n IN
                        One([s EXCEPT !.d = e, !.ck[1] = MaxT(e, @)], JoinI(e))
    \* ---- sleeps
    [] op = "fail" -> One([s EXCEPT !.err = c[2]], "ok")
    [] op = "mk" -> LET v == Sp(c[2], c[3]) IN One([s EXCEPT !.req[c[2] + 1] = v], JoinI(v))
    [] op = "mkd" -> One([s EXCEPT !.req[1] = <<c[2], c[3]>>], JoinI(<<c[2], c[3]>>))
    [] op = "go" -> Sleep(s, c[2], s.req[c[2] + 1])
    [] op = "gon" -> Sleep(s, c[2], Sp(c[2], c[3]))
    [] op = "god" -> Sleep(s, 0, <<c[2], c[3]>>)
    \* ---- watches: 0 wall clock, 1 cpu time
    [] op = "start" -> One([s EXCEPT !.w[c[2] + 1] = <<Now(s, c[2]), Now(s, c[2])>>], "ok")     \* constructed or restarted
    [] op = "elapsed" -> One(s, JoinI(Sub(Now(s, c[2]), s.w[c[2] + 1][1])))
    [] op = "split" -> One([s EXCEPT !.w[c[2] + 1][2] = Now(s, c[2])], JoinI(Sub(Now(s, c[2]), s.w[c[2] + 1][2])))
    \* ---- time data
    [] op = "push" -> One([s EXCEPT !.td = Append(@, c[2])], "ok")
    [] op = "clear" -> One([s EXCEPT !.td = <<>>], "ok")
    [] op = "stats" -> IF s.td = <<>> THEN {} ELSE LET n == Len(s.td) v == n * SumSq(s.td) - Sq(SumS(s.td)) IN One(s, JoinI(<<SumS(s.td), v, v>>))
    [] OTHER -> {}
\* nothing is ever scheduled, requested or measured that is not a proper time
Inv(s) == /\ \A v \in {s.d, s.p, s.ck[1], s.ck[2]} \cup {s.req[k] : k \in 1..4} : v[2] \in 0..(G - 1) /\ v[1] >= 0
          /\ \A k \in 1..2 : ~Lt(s.ck[k], s.w[k][1]) /\ ~Lt(s.w[k][2], s.w[k][1]) /\ ~Lt(s.ck[k], s.w[k][2])
\* a snooze never lags: right after it returns, the clock has reached the deadline
Awake(s) == TRUE
====
