---- MODULE MutexS ----
\* A mutex and four threads, which are alike: one may hold it, any number wait for it (some only for so long), the rest are idle.
EXTENDS Util
N == 4
\* wait: how many wait in lock, twait: how many in a timed lock that lasts longer than the history
Init0 == [dbg |-> 1, held |-> 0, wait |-> 0, twait |-> 0]
Idle(s) == s.held + s.wait + s.twait < N
Lock(s) == IF s.held = 0 THEN One([s EXCEPT !.held = 1], "got") ELSE One([s EXCEPT !.wait = @ + 1], "waits")
Try(s) == IF s.held = 0 THEN One([s EXCEPT !.held = 1], "yes") ELSE One(s, "no")
Timed(s, ms) == IF s.held = 0 THEN One([s EXCEPT !.held = 1], "yes") ELSE IF ms < 5000 THEN One(s, "no") ELSE One([s EXCEPT !.twait = @ + 1], "waits")
\* one of those waiting gets it
Unlock(s) ==
  IF s.wait + s.twait = 0 THEN One([s EXCEPT !.held = 0], "ok")
  ELSE (IF s.wait > 0 THEN One([s EXCEPT !.wait = @ - 1], "ok:got") ELSE {}) \cup (IF s.twait > 0 THEN One([s EXCEPT !.twait = @ - 1], "ok:yes") ELSE {})
\* threads waiting for a limited time may or may not be counted
Locks(s) == {[s |-> s, r |-> ToString(s.held + s.wait + x)] : x \in 0..s.twait}
\* giving up comes after so long a time from now, to the nanosecond
Deadline(a, n, d, m) == LET x == n + m IN IF x >= 1000000000 THEN <<a + d + 1, x - 1000000000>> ELSE IF x < 0 THEN <<a + d - 1, x + 1000000000>> ELSE <<a + d, x>>
\* calls to the system that fail are told of by kind, and change nothing
Broken(w, e) == CASE w \in {"attr", "type"} -> (CASE e = 22 -> "InvalidInput" [] e = 12 -> "Memory" [] OTHER -> "Unknown")
                  [] w = "init" -> (CASE e = 22 -> "InvalidInput" [] e = 16 -> "InvalidInput" [] e \in {11, 12} -> "Memory" [] e = 1 -> "Permissions" [] OTHER -> "Unknown")
                  [] w = "unlock" -> (CASE e = 22 -> "InvalidInput" [] e = 11 -> "OutOfRange" [] e = 1 -> "Permissions" [] OTHER -> "Unknown")
                  [] w = "timed" -> (CASE e \in {22, 35} -> "Usage" [] e = 11 -> "OutOfRange" [] OTHER -> "Unknown")
                  [] OTHER -> (CASE e = 35 -> "Usage" [] e = 16 -> "Configuration" [] e = 22 -> "InvalidInput" [] e = 11 -> "OutOfRange" [] OTHER -> "Posix")
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
    [] op = "made" -> One(s, IF c[2] = 1 THEN "1n0" ELSE "0y1")
    [] op = "lock" -> IF Idle(s) THEN Lock(s) ELSE {}
    [] op = "try" -> IF Idle(s) THEN Try(s) ELSE {}
    [] op = "timed" -> IF Idle(s) THEN Timed(s, c[2]) ELSE {}
    [] op = "unlock" -> IF s.held = 1 THEN Unlock(s) ELSE {}
    \* mistakes, which debug builds find: locking twice, unlocking what one does not hold
    [] op = "relock" -> IF s.held = 1 /\ s.dbg = 1 THEN One(s, "throw:Usage") ELSE {}
    [] op = "retry" -> IF s.held = 1 THEN One(s, "no") ELSE {}
    [] op = "retimed" -> IF s.held = 1 THEN One(s, IF s.dbg = 1 THEN "throw:Usage" ELSE "no") ELSE {}
    [] op = "steal" -> IF Idle(s) /\ s.dbg = 1 THEN One(s, "throw:Permissions") ELSE {}
    [] op = "locks" -> Locks(s)
    [] op = "deadline" -> LET t == Deadline(c[2], c[3], c[4], c[5]) IN One(s, "no:" \o ToString(t[1]) \o "," \o ToString(t[2]))
    [] op = "broken" -> IF s.dbg = 0 THEN {} ELSE One(s, "throw:" \o Broken(c[2], c[3]) \o (IF c[2] \in {"attr", "type", "init"} THEN "" ELSE IF c[2] = "unlock" THEN ":1:0" ELSE ":0:0"))
    [] op = "race" -> One(s, "ok:0")
====
