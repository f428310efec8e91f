---- MODULE FreqS ----
\* The frequency monitor: events are counted over windows of its own clock.  Times are eighths of a second.
EXTENDS Util
Huge == 800000
Mon(per, rt, t) == [per |-> per, rt |-> rt, cnt |-> 0, la |-> t, mn |-> Huge, mx |-> 0, li |-> t,
                    dg |-> [conn |-> FALSE, hz |-> -64, mn |-> -8, mx |-> -8, li |-> 0]]
Init0 == [mono |-> 80, real |-> 4000, m |-> <<Mon(16, 0, 80), Mon(16, 1, 4000)>>]
Clock(s, a) == IF s.m[a].rt = 1 THEN s.real ELSE s.mono
Show(d) == B(d.conn) \o "," \o JoinI(<<d.hz, d.mn, d.mx, d.li>>)
\* 64 times the frequency, rounded half up
Hz64(n, ticks) == (2 * 512 * n + ticks) \div (2 * ticks)
Put(s, a, x) == [s EXCEPT !.m[a] = x]
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "tick" -> One([s EXCEPT !.mono = @ + c[2], !.real = @ + c[3]], "ok")
    [] OTHER ->
  LET a == c[2] + 1 x == s.m[a] now == Clock(s, a) IN
  CASE op = "new" -> One(Put(s, a, Mon(c[3], c[4], IF c[4] = 1 THEN s.real ELSE s.mono)), "ok")
    [] op = "update" -> LET g == now - x.li IN One(Put(s, a, [x EXCEPT !.cnt = @ + 1, !.mn = Min2(@, g), !.mx = Max2(@, g), !.li = now, !.dg.conn = TRUE]), "ok")
    [] op = "analyse" ->
       LET g == now - x.la
           d == IF g <= x.per THEN x.dg
                ELSE IF x.cnt = 0 THEN [x.dg EXCEPT !.conn = FALSE, !.hz = 0, !.mn = 0, !.mx = 0]
                ELSE [x.dg EXCEPT !.conn = TRUE, !.hz = Hz64(x.cnt, g), !.mn = x.mn, !.mx = x.mx]
           e == [d EXCEPT !.li = x.li]
           y == IF g <= x.per THEN [x EXCEPT !.dg = e] ELSE [x EXCEPT !.dg = e, !.la = now, !.cnt = 0, !.mn = Huge, !.mx = 0]
       IN One(Put(s, a, y), Show(e))
    [] op = "diag" -> One(s, Show(x.dg))
    [] OTHER -> {}
Inv(s) == \A a \in 1..2 : LET x == s.m[a] IN x.la <= Clock(s, a) /\ x.li <= Clock(s, a) /\ (x.cnt > 0 => x.mn <= x.mx) /\ x.dg.hz >= -64
====
