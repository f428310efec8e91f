---- MODULE SharedFileS ----
\* SharedFile: instances that share one open file per name, each with a buffer of its own.
EXTENDS Util
N == 4096
None == [sh |-> 0, name |-> "", buf |-> <<>>]
Init0 == [dbg |-> 1, disk |-> [n \in {} |-> <<>>], file |-> [n \in {} |-> <<>>], f |-> [i \in 0..2 |-> None]]
Mode(s, d) == One([s EXCEPT !.dbg = d], "ok")
RECURSIVE Runs(_, _)
Runs(q, t) == IF t = <<>> THEN q ELSE IF t[1][2] = 0 THEN Runs(q, Tail(t)) ELSE IF q # <<>> /\ q[Len(q)][1] = t[1][1] THEN Runs([q EXCEPT ![Len(q)][2] = @ + t[1][2]], Tail(t)) ELSE Runs(Append(q, t[1]), Tail(t))
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE q[1][1] \o ToString(q[1][2]) \o Show(Tail(q))
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Size(Tail(q))
RECURSIVE Take(_, _)
Take(q, n) == IF n = 0 \/ q = <<>> THEN <<>> ELSE <<<<q[1][1], Min2(n, q[1][2])>>>> \o Take(Tail(q), n - Min2(n, q[1][2]))
RECURSIVE Drop(_, _)
Drop(q, n) == IF n = 0 \/ q = <<>> THEN q ELSE IF q[1][2] <= n THEN Drop(Tail(q), n - q[1][2]) ELSE <<<<q[1][1], q[1][2] - n>>>> \o Tail(q)
Refused(n) == CASE n = "dir" -> "InvalidObject" [] n = "no/file" -> "NotFound" [] n = "plain/file" -> "InvalidObject" [] n = "loop" -> "SystemFailure" [] n = "long" -> "InvalidArg" [] OTHER -> ""
With(d, n, c) == [m \in DOMAIN d \cup {n} |-> IF m = n THEN c ELSE d[m]]
Without(d, n) == [m \in DOMAIN d \ {n} |-> d[m]]
Users(s, n) == {i \in DOMAIN s.f : s.f[i].sh = 1 /\ s.f[i].name = n}
\* lets go of its file: what it buffered is written; the last one closes the file
\* (bad: that write fails)
Leave(s, i, bad) ==
  IF s.f[i].sh = 0 THEN s
  ELSE LET n == s.f[i].name
           w == IF bad THEN s.file[n] ELSE Runs(s.file[n], s.f[i].buf)
           t == [s EXCEPT !.file[n] = w, !.f[i] = None]
       IN IF Users(t, n) = {} THEN [t EXCEPT !.disk = With(s.disk, n, w), !.file = Without(s.file, n)] ELSE t
\* an instance that never shared a file keeps what it buffered until it does
Open(s0, i, n, m) ==
  LET s == Leave(s0, i, FALSE) IN
  IF n \in DOMAIN s.file THEN One([s EXCEPT !.f[i].sh = 1, !.f[i].name = n], "ok:1")
  ELSE IF Refused(n) # "" THEN One(s, "throw:" \o Refused(n))
  ELSE LET c == IF m = 1 /\ n \in DOMAIN s.disk THEN s.disk[n] ELSE <<>> IN One([s EXCEPT !.f[i].sh = 1, !.f[i].name = n, !.disk = With(s.disk, n, c), !.file = With(s.file, n, c)], "ok:1")
Fails(s, v, e) == [s |-> s, r |-> IF s.dbg = 1 THEN "throw:" \o e ELSE v \o ":" \o e]
\* after a failed flush the buffer may or may not have been kept
Lost(s, i, b, v, e) == {Fails([s EXCEPT !.f[i].buf = x], v, e) : x \in {b, <<>>}}
Why(s, i, bad) == IF s.f[i].sh = 0 THEN "Open" ELSE IF bad THEN "Write" ELSE ""
Flush(s, i, bad) ==
  LET e == IF s.f[i].sh = 0 THEN "Open" ELSE IF bad /\ s.f[i].buf # <<>> THEN "Write" ELSE "" IN
  IF e # "" THEN Lost(s, i, s.f[i].buf, "0", e)
  ELSE One([s EXCEPT !.file[s.f[i].name] = Runs(@, s.f[i].buf), !.f[i].buf = <<>>], "ok:1")
Write(s, i, ch, n, bad) ==
  LET b == s.f[i].buf
      all == Runs(b, <<<<ch, n>>>>)
      k == (Size(all) \div N) * N
  IN IF k = 0 \/ n = 0 THEN One([s EXCEPT !.f[i].buf = all], "ok:" \o ToString(n))
     ELSE IF Why(s, i, bad) # "" THEN Lost(s, i, Take(all, N), "-1", Why(s, i, bad))
     ELSE One([s EXCEPT !.f[i].buf = Drop(all, k), !.file[s.f[i].name] = Runs(@, Take(all, k))], "ok:" \o ToString(n))
\* one character onto a buffer that a failed flush left full: it is not taken, which is told
WriteChar(s, i, ch, bad) ==
  IF Size(s.f[i].buf) < N THEN Write(s, i, ch, 1, bad)
  ELSE IF Why(s, i, bad) # "" THEN Lost(s, i, s.f[i].buf, "-1", Why(s, i, bad))
  ELSE One([s EXCEPT !.file[s.f[i].name] = Runs(@, s.f[i].buf), !.f[i].buf = <<>>], "ok:0")
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "mode" -> Mode(s, c[2])
    [] op = "new" -> One([Leave(s, c[2], FALSE) EXCEPT !.f[c[2]] = None], "ok")
    [] op = "endbad" -> One([Leave(s, c[2], TRUE) EXCEPT !.f[c[2]] = None], "ok")                  \* nothing can be written any more
    [] op = "make" -> Open([Leave(s, c[2], FALSE) EXCEPT !.f[c[2]] = None], c[2], c[3], c[4])
    [] op = "open" -> Open(s, c[2], c[3], c[4])                                                    \* <<open, i, name, mode>>
    [] op = "isopen" -> One(s, ToString(s.f[c[2]].sh))
    [] op = "count" -> One(s, ToString(IF s.f[c[2]].sh = 0 THEN 0 ELSE Cardinality(Users(s, s.f[c[2]].name))))
    [] op = "w" -> IF c[3] = 0 THEN WriteChar(s, c[2], c[4], FALSE) ELSE Write(s, c[2], c[4], c[5], FALSE)          \* <<w, i, way, character, n>>
    [] op = "wbad" -> IF c[3] = 0 THEN WriteChar(s, c[2], c[4], TRUE) ELSE Write(s, c[2], c[4], c[5], TRUE)
    [] op = "flush" -> Flush(s, c[2], FALSE)
    [] op = "flushbad" -> Flush(s, c[2], TRUE)
    [] op = "look" -> IF c[2] \in DOMAIN s.file THEN {} ELSE One(s, IF c[2] \in DOMAIN s.disk THEN Show(s.disk[c[2]]) \o "." ELSE "none")
    [] op = "fds" -> One(s, ToString(Cardinality(DOMAIN s.file)))
    \* <<race, threads, rounds, size>>: each thread writes and flushes its own records through instances of its own; every record arrives once, whole, in order
    [] op = "race" -> One(s, "ok")
====
