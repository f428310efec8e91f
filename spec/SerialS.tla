---- MODULE SerialS ----
\* Serial: handles onto serial ports, a peer that feeds them now or later, a clock, and a system that fails on demand.
\* Names p and q are ports 0 and 1; 'pend' holds bytes under way: <<>> or [at |-> milliseconds from now, b |-> bytes].
EXTENDS Errnos
Shut == [on |-> 0, port |-> 0, tmo |-> 5000]
Init0 == [dbg |-> 1, h |-> [i \in 0..1 |-> Shut], q |-> [p \in 0..1 |-> <<>>], pend |-> [p \in 0..1 |-> <<>>], line |-> [p \in 0..1 |-> "none"],
          gone |-> [p \in 0..1 |-> 0], held |-> [p \in 0..1 |-> 0], bad |-> <<"", "">>]
Num(n) == IF n = "p" THEN 0 ELSE 1
Either(s, t, r) == {[s |-> s, r |-> r], [s |-> t, r |-> r]}
Mine(s, i) == s.h[i].on = 1
\* time passes: what was under way arrives
Later(x, e) == IF x = <<>> \/ x.at <= e THEN <<>> ELSE [x EXCEPT !.at = @ - e]
Come(x, e) == IF x = <<>> \/ x.at > e THEN <<>> ELSE x.b
Pass(s, e) == [s EXCEPT !.q = [p \in 0..1 |-> s.q[p] \o Come(s.pend[p], e)], !.pend = [p \in 0..1 |-> Later(s.pend[p], e)]]
Hit(s, w) == s.bad[1] = w
Calm(s) == [s EXCEPT !.bad = <<"", "">>]
Off(s, i) == [s EXCEPT !.h[i].on = 0]
Par(x) == CASE x = 0 -> "none" [] x = 1 -> "odd" [] OTHER -> "even"
Settings(b, d, st, pa) == ToString(b) \o "," \o ToString(d) \o "," \o (IF st = 0 THEN "1" ELSE "2") \o "," \o Par(pa)
Attach(s0, i, n, b, d, st, pa, tmos) ==
  LET p == Num(n) s == Off(s0, i) IN
  IF st = 1 THEN Either(s0, s, "throw:Configuration")
  ELSE IF Hit(s, "open") THEN One(Calm(s), "throw:" \o OpenErr(s.bad[2]))
  ELSE IF s.gone[p] = 1 THEN One(s, "throw:NotFound")
  ELSE IF b >= 14 THEN One(s, "throw:Configuration")
  ELSE IF s.held[p] = 1 THEN One(s, "throw:Open")
  ELSE {[s |-> [s EXCEPT !.h[i] = [on |-> 1, port |-> p, tmo |-> t], !.q[p] = <<>>, !.line[p] = Settings(b, d, st, pa)], r |-> "ok"] : t \in tmos}
Reply(s, e) == IF s.dbg = 1 THEN "throw:" \o e ELSE "-1:" \o e
At(r, s, e) == IF s.dbg = 1 /\ Ch(r, 1) = "t" THEN r ELSE r \o "@" \o ToString(e)
\* the bytes that are there, at most n of them
Grab(s, p, n, e) == LET m == Min2(n, Len(s.q[p])) IN
  [s |-> [s EXCEPT !.q[p] = SubSeq(@, m + 1, Len(@))], r |-> ToString(m) \o ":" \o JoinI(SubSeq(s.q[p], 1, m)) \o "@" \o ToString(e)]
Nothing(s, e) == [s |-> Pass(s, e), r |-> "0:@" \o ToString(e)]
Receive(s, i, n) ==
  LET p == s.h[i].port t == s.h[i].tmo IN
  IF ~Mine(s, i) THEN One(s, At(Reply(s, "Open"), s, 0))
  ELSE IF Hit(s, "read") THEN One(Calm(s), At(Reply(s, ReadErr(s.bad[2])), s, 0))
  ELSE IF s.q[p] # <<>> THEN {Grab(s, p, n, 0)}
  ELSE IF t = -1 THEN {Nothing(s, 0)}
  ELSE LET comes == s.pend[p] # <<>> r == s.pend[p].at c == Min2(t, 25500) IN
    IF t >= 100 THEN {IF comes /\ r <= w THEN Grab(Pass(s, r), p, n, r) ELSE Nothing(s, w) : w \in (c - 99)..c}
    ELSE (IF comes /\ r <= t + 5 THEN {Grab(Pass(s, e), p, n, e) : e \in r..Min2(r + 5, t + 5)} ELSE {})
         \cup (IF comes /\ r <= t - 5 THEN {} ELSE {Nothing(s, e) : e \in t..(t + 5)})
Send(s, i, t) ==
  IF ~Mine(s, i) THEN One(s, Reply(s, "Open"))
  ELSE IF Hit(s, "write") THEN One(Calm(s), Reply(s, WriteErr(s.bad[2])))
  ELSE One(s, ToString(Len(t)) \o ":" \o JoinI(t))
Drop(s, i) == [s EXCEPT !.q[s.h[i].port] = <<>>]
Wait(s, i, t) == IF Mine(s, i) THEN Either([s EXCEPT !.h[i].tmo = t], [Drop(s, i) EXCEPT !.h[i].tmo = t], "ok") ELSE One([s EXCEPT !.h[i].tmo = t], "ok")
Other(s, p, keep) ==
  IF s.gone[p] = 1 \/ (\E i \in 0..1 : Mine(s, i) /\ s.h[i].port = p) \/ s.held[p] = 1 THEN One(s, IF s.gone[p] = 1 THEN "!other" ELSE "Open")
  ELSE One([s EXCEPT !.q[p] = <<>>, !.held[p] = keep], "ok")
Step(s, c) == LET op == c[1] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
  [] op = "fds" -> One(s, ToString(Cardinality({i \in 0..1 : Mine(s, i)})))
  [] op = "feed" -> One([s EXCEPT !.q[Num(c[2])] = @ \o c[3]], "ok")
  [] op = "soon" -> One([s EXCEPT !.pend[Num(c[2])] = [at |-> c[3], b |-> c[4]]], "ok")
  [] op = "tick" -> One(Pass(s, c[2]), "ok")
  [] op = "line" -> One(s, s.line[Num(c[2])])
  [] op = "pull" -> One([s EXCEPT !.gone[Num(c[2])] = 1], "ok")
  [] op = "plug" -> One([s EXCEPT !.gone[Num(c[2])] = 0], "ok")
  [] op = "bad" -> One([s EXCEPT !.bad = <<c[2], c[3]>>], "ok")
  [] op = "other" -> Other(s, Num(c[2]), 0)
  [] op = "grab" -> Other(s, Num(c[2]), 1)
  [] op = "ungrab" -> One([s EXCEPT !.held = [p \in 0..1 |-> 0]], "ok")
  [] op = "new" -> One([s EXCEPT !.h[c[2]] = Shut], "ok")
  [] op = "raii" -> {[s |-> IF o.r = "ok" THEN o.s ELSE [o.s EXCEPT !.h[c[2]] = Shut], r |-> o.r] : o \in Attach([s EXCEPT !.h[c[2]] = Shut], c[2], c[3], c[4], c[5], c[6], c[7], {5000})}
  [] op = "open" -> Attach(s, c[2], c[3], c[4], c[5], c[6], c[7], {s.h[c[2]].tmo, 5000})
  [] op = "close" -> One(Off(s, c[2]), "ok")
  [] op = "isopen" -> IF Mine(s, c[2]) /\ s.gone[s.h[c[2]].port] = 0 THEN One(s, "1") ELSE One(Off(s, c[2]), "0")
  [] op = "read" -> Receive(s, c[2], IF c[3] = 0 THEN 1 ELSE c[3])
  [] op = "write" -> Send(s, c[2], c[4])
  [] op = "block" -> Wait(s, c[2], IF c[3] < 0 THEN 500 ELSE c[3])
  [] op = "unblock" -> Wait(s, c[2], -1)
  [] op = "remaining" -> One(s, IF Mine(s, c[2]) THEN ToString(Len(s.q[s.h[c[2]].port])) ELSE "0")
  [] op = "clear" -> One(IF Mine(s, c[2]) /\ c[3] # 2 THEN Drop(s, c[2]) ELSE s, "ok")
  [] op = "flush" -> One(s, "ok")
====
