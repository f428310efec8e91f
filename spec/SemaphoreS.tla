---- MODULE SemaphoreS ----
\* Processes that lock by name: a name leads to one semaphore until whoever created it lets go, those connected to it stay connected.
EXTENDS Util
P == 4
K == 2
\* name[n]: the semaphore a name leads to (0: none), free[o]: whether semaphore o is unlocked, h[p][n]: the semaphore process p opened
\* under the name and whether it created it, w[p]: the semaphore process p waits for and how (1: in lock, 2: in a timed lock)
O == P * K + K
None == [o |-> 0, c |-> 0]
Init0 == [dbg |-> 1, name |-> [n \in 1..K |-> 0], free |-> [o \in 1..O |-> 0], h |-> [p \in 1..P |-> [n \in 1..K |-> None]], w |-> [p \in 1..P |-> [o |-> 0, k |-> 0]]]
Used(s) == {s.name[n] : n \in 1..K} \cup {s.h[p][n].o : p \in 1..P, n \in 1..K}
Fresh(s) == CHOOSE o \in 1..O : o \notin Used(s) /\ \A q \in 1..O : q \notin Used(s) => o <= q
\* what nobody can reach any more is gone
Tidy(s) == [s EXCEPT !.free = [o \in 1..O |-> IF o \in Used(s) THEN @[o] ELSE 0]]
Open(s, p, n) ==
  IF s.name[n] # 0 THEN [s EXCEPT !.h[p][n] = [o |-> s.name[n], c |-> 0]]
  ELSE LET o == Fresh(s) IN [s EXCEPT !.h[p][n] = [o |-> o, c |-> 1], !.name[n] = o, !.free[o] = 1]
Close(s, p, n) == Tidy([s EXCEPT !.h[p][n] = None, !.name[n] = IF s.h[p][n].c = 1 THEN 0 ELSE @])
Waiters(s, o) == {p \in 1..P : s.w[p].o = o}
Word(k) == IF k = 1 THEN "got" ELSE "yes"
Unlock(s, p, o) ==
  IF Waiters(s, o) = {} THEN One([s EXCEPT !.free[o] = 1], "ok")
  ELSE {[s |-> [s EXCEPT !.w[q] = [o |-> 0, k |-> 0]], r |-> "ok:" \o ToString(q - 1) \o ":" \o Word(s.w[q].k)] : q \in Waiters(s, o)}
\* giving up comes after so long a time from now, to the nanosecond
Deadline(a, n, d, m) == LET x == n + m IN IF x >= 1000000000 THEN <<a + d + 1, x - 1000000000>> ELSE IF x < 0 THEN <<a + d - 1, x + 1000000000>> ELSE <<a + d, x>>
\* what calls to the system that fail are told as
OpenErr(e) == CASE e = 13 -> "Permissions" [] e = 2 -> "Configuration" [] e = 12 -> "Memory" [] e \in {22, 36} -> "InvalidArg" [] e \in {23, 24} -> "OutOfResources" [] OTHER -> "Unknown"
TryErr(e) == CASE e = 4 -> "Interrupted" [] e = 22 -> "InvalidArg" [] e = 11 -> "Blocking" [] OTHER -> "Unknown"
YN(b) == IF b THEN "yes" ELSE "no"
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
    [] op = "bare" -> One(s, "throw:Raii")
    [] op = "has" -> One(s, YN(s.name[c[3] + 1] # 0))
    \* at full speed: every process takes its turns; everybody comes for the same new name at once
    [] op = "deadline" -> LET t == Deadline(c[2], c[3], c[4], c[5]) IN One(s, "no:" \o ToString(t[1]) \o "," \o ToString(t[2]))
    \* one that is there already is opened
    [] op = "broken" -> IF c[2] = "sem_open" THEN (IF c[3] = 17 THEN One(s, "ok:1") ELSE IF s.dbg = 0 THEN {} ELSE One(s, "throw:" \o OpenErr(c[3])))
                        ELSE One(s, (IF s.dbg = 1 THEN "throw:" \o TryErr(c[3]) ELSE "no") \o ":0:1")
    [] op \in {"turns", "meet"} -> One(s, "ok")
    [] OTHER ->
  LET p == c[2] + 1 IN
  IF op = "sig" THEN
     \* a signal does not end the wait of lock
     (IF s.w[p].k = 1 THEN One(s, "waits") ELSE IF s.w[p].k = 2 THEN One([s EXCEPT !.w[p] = [o |-> 0, k |-> 0]], IF s.dbg = 1 THEN "throw:Interrupted" ELSE "no") ELSE {})
  ELSE IF s.w[p].k # 0 THEN {}
  ELSE LET n == c[3] + 1  o == s.h[p][n].o IN
  IF op = "open" THEN (IF o = 0 THEN One(Open(s, p, n), "ok") ELSE {})
  ELSE IF o = 0 THEN {}
  ELSE
  CASE op = "close" -> One(Close(s, p, n), "ok")
    [] op = "lock" -> IF s.free[o] = 1 THEN One([s EXCEPT !.free[o] = 0], "got") ELSE One([s EXCEPT !.w[p] = [o |-> o, k |-> 1]], "waits")
    [] op = "try" -> IF s.free[o] = 1 THEN One([s EXCEPT !.free[o] = 0], "yes") ELSE One(s, "no")
    [] op = "timed" -> IF s.free[o] = 1 THEN One([s EXCEPT !.free[o] = 0], "yes") ELSE IF c[4] < 5000 THEN One(s, "no") ELSE One([s EXCEPT !.w[p] = [o |-> o, k |-> 2]], "waits")
    [] op = "unlock" -> Unlock(s, p, o)
TypeOK(s) == \A p \in 1..P : s.w[p].o # 0 => s.free[s.w[p].o] = 0 /\ \E n \in 1..K : s.h[p][n].o = s.w[p].o
\* a name has at most one creator, and is there as long as its creator is
Creator(s) == (\A p \in 1..P, n \in 1..K : s.h[p][n].c = 1 => s.h[p][n].o = s.name[n]) /\ (\A p, q \in 1..P, n \in 1..K : s.h[p][n].c = 1 /\ s.h[q][n].c = 1 => p = q)
====
