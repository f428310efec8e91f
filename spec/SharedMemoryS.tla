---- MODULE SharedMemoryS ----
\* Processes that share memory by name: whoever comes first creates it and puts the default values in it, the others connect to what is there.
EXTENDS Util
P == 4
K == 2
O == P * K + K
None == [o |-> 0, m |-> 0]
\* mem[o]: the values in memory o, h[p][n]: the memory process p has under the name, and whether it manages it
Init0 == [name |-> [n \in 1..K |-> 0], mem |-> [o \in 1..O |-> <<0, 0>>], h |-> [p \in 1..P |-> [n \in 1..K |-> None]]]
Used(s) == {s.name[n] : n \in 1..K} \cup {s.h[p][n].o : p \in 1..P, n \in 1..K}
Fresh(s) == CHOOSE o \in 1..O : o \notin Used(s) /\ \A q \in 1..O : q \notin Used(s) => o <= q
Tidy(s) == [s EXCEPT !.mem = [o \in 1..O |-> IF o \in Used(s) THEN @[o] ELSE <<0, 0>>]]
Show(v) == ToString(v[1]) \o "," \o ToString(v[2])
Open(s, p, n) ==
  IF s.name[n] # 0 THEN [s EXCEPT !.h[p][n] = [o |-> s.name[n], m |-> 0]]
  ELSE LET o == Fresh(s) IN [s EXCEPT !.h[p][n] = [o |-> o, m |-> 1], !.name[n] = o, !.mem[o] = <<7, -1>>]
Flag(f, e) ==
  IF f = "ftruncate" THEN "Open"
  ELSE IF f = "mmap" THEN (CASE e \in {"ENOMEM", "EAGAIN"} -> "Memory" [] e \in {"EACCES", "EPERM"} -> "Permissions" [] e \in {"EBADF", "EINVAL"} -> "InvalidArg" [] e = "ENFILE" -> "OutOfResources" [] e = "ENODEV" -> "NotSupported" [] OTHER -> "Unknown")
  ELSE (CASE e = "EACCES" -> "Permissions" [] e \in {"EMFILE", "ENFILE"} -> "OutOfResources" [] e \in {"ENOENT", "EINVAL", "ENAMETOOLONG"} -> "InvalidArg" [] e = "ENOSYS" -> "NotSupported" [] OTHER -> "Unknown")
Have(s, p) == Cardinality({n \in 1..K : s.h[p][n].o # 0})
YN(b) == IF b THEN "yes" ELSE "no"
Step(s, c) ==
  LET op == c[1] IN
  IF op = "has" THEN One(s, YN(s.name[c[3] + 1] # 0))
  ELSE LET p == c[2] + 1 IN
  \* a process has no more of it than what it has open: no descriptors, one mapping each
  IF op = "res" THEN One(s, "0:" \o ToString(Have(s, p)))
  ELSE LET n == c[3] + 1  o == s.h[p][n].o IN
  IF op = "mopen" THEN
    IF o # 0 THEN {}
    \* when that fails everything is as it was
    ELSE IF Len(c) > 3 THEN One(s, "throw:" \o Flag(c[4], c[5]))
    ELSE LET t == Open(s, p, n) IN One(t, Show(t.mem[t.name[n]]))
  ELSE IF o = 0 THEN {}
  ELSE
  CASE op = "mclose" -> One(Tidy([s EXCEPT !.h[p][n] = None, !.name[n] = IF s.h[p][n].m = 1 THEN 0 ELSE @]), "ok")
    \* from here on the name leads elsewhere (done by whoever manages it)
    [] op = "munlink" -> IF s.h[p][n].m = 1 THEN One([s EXCEPT !.h[p][n].m = 0, !.name[n] = 0], "ok") ELSE {}
    [] op = "mset" -> One([s EXCEPT !.mem[o][c[4] + 1] = c[5]], "ok")
    [] op = "mget" -> One(s, Show(s.mem[o]))
Managed(s) == (\A p \in 1..P, n \in 1..K : s.h[p][n].m = 1 => s.h[p][n].o = s.name[n]) /\ (\A p, q \in 1..P, n \in 1..K : s.h[p][n].m = 1 /\ s.h[q][n].m = 1 => p = q)
====
