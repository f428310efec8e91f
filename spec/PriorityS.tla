---- MODULE PriorityS ----
\* The priority of a process: priorities are 0 default, 1 unknown, 2 background, 3 low, 4 normal, 5 high, 6 critical, 7..10 real time.
EXTENDS Util
Init0 == [dbg |-> 1, pol |-> "other", nice |-> 0, rt |-> 0, last |-> 4]
Nice(p) == CASE p = 2 -> 19 [] p = 3 -> 10 [] p = 4 -> 0 [] p = 5 -> -10 [] p = 6 -> -20
\* real time levels are the lowest and tenths of the range (1..99) above it
Rt(p) == 1 + ((p - 7) * 98) \div 10
Err(e) == CASE e \in {"EINVAL", "ESRCH"} -> "InvalidInput" [] e \in {"EPERM", "EACCES"} -> "Permissions" [] OTHER -> "Unknown"
Fails(s, e) == One(s, IF s.dbg = 1 THEN "throw:" \o Err(e) ELSE "0")
Set(s, p) == IF p < 2 THEN One(s, "1") ELSE IF p >= 7 THEN One([s EXCEPT !.pol = "rr", !.rt = Rt(p), !.last = p], "1") ELSE One([s EXCEPT !.pol = "other", !.nice = Nice(p), !.last = p], "1")
\* the system refuses: nothing changes (the policy may have)
SetBad(s, p, at, e) == IF at = "nice" /\ p \in 2..6 /\ s.pol = "other" THEN Fails(s, e) ELSE IF at = "sched" /\ p >= 7 THEN Fails(s, e) ELSE IF at = "sched" /\ p \in 2..6 /\ s.pol = "rr" THEN Fails(s, e) ELSE {}
Foreign(s) == s.pol \notin {"other", "rr"}
OfNice(n) == CASE n = 19 -> 2 [] n = 10 -> 3 [] n = 0 -> 4 [] n = -10 -> 5 [] n = -20 -> 6 [] OTHER -> 4
Name(p) == CASE p = 1 -> "Unknown" [] p = 2 -> "Background" [] p = 3 -> "Low" [] p = 4 -> "Normal" [] p = 5 -> "High" [] p = 6 -> "Critical" [] OTHER -> "RealTime" \o ToString(p - 6)
Level(n) == IF n >= 30 THEN 10 ELSE IF n >= 20 THEN 9 ELSE IF n >= 10 THEN 8 ELSE 7
Step(s, c) ==
  LET op == c[1] IN
  \* someone else sets the policy: those that the library does not use itself are reported as unknown
  CASE op = "host" -> IF c[2] \in {"rr", "fifo"} THEN One([s EXCEPT !.pol = c[2], !.rt = c[3], !.nice = 0, !.last = IF c[2] = "rr" THEN Level(c[3]) ELSE 1], "ok")
                      ELSE One([s EXCEPT !.pol = c[2], !.nice = c[3], !.rt = 0, !.last = IF c[2] # "other" THEN 1 ELSE OfNice(c[3])], "ok")
    [] op \in {"set", "get"} /\ Foreign(s) /\ (Len(c) > 2 \/ (op = "set" /\ c[2] \in 2..6)) -> {}
    [] op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
    [] op = "set" -> IF Len(c) > 2 THEN SetBad(s, c[2], c[3], c[4]) ELSE Set(s, c[2])
    [] op = "get" -> IF Len(c) = 1 THEN One(s, ToString(s.last)) ELSE IF c[2] = "query" \/ (c[2] = "param" /\ s.pol = "rr") THEN One(s, IF s.dbg = 1 THEN "throw:" \o Err(c[3]) ELSE "1") ELSE {}
    [] op = "sys" -> One(s, s.pol \o ":" \o ToString(IF s.pol \in {"rr", "fifo"} THEN s.rt ELSE s.nice))
    [] op = "rt" -> IF c[2] < 1 \/ c[2] > 99 THEN One(s, "throw:OutOfRange") ELSE IF Len(c) > 2 THEN Fails(s, c[4]) ELSE One([s EXCEPT !.pol = "rr", !.rt = c[2], !.last = Level(c[2])], "1")
    [] op = "diag" -> One(s, s.pol \o ":" \o Name(s.last))
====
