---- MODULE FileS ----
\* OFile: files on a disk, handles onto them with what they hold back, and a system that fails on demand.
\* Contents are runs: sequences of <<character, how many>>.
EXTENDS Errnos
None == [open |-> 0, name |-> "", mode |-> 0, pend |-> <<>>]
Init0 == [dbg |-> 1, disk |-> [n \in {} |-> <<>>], f |-> [i \in 0..2 |-> None]]
Mode(s, d) == One([s EXCEPT !.dbg = d], "ok")
RECURSIVE Runs(_, _)
Runs(q, t) == IF t = <<>> THEN q ELSE IF t[1][2] = 0 THEN Runs(q, Tail(t)) ELSE IF q # <<>> /\ q[Len(q)][1] = t[1][1] THEN Runs([q EXCEPT ![Len(q)][2] = @ + t[1][2]], Tail(t)) ELSE Runs(Append(q, t[1]), Tail(t))
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE q[1][1] \o ToString(q[1][2]) \o Show(Tail(q))
\* names that cannot be opened: a directory, a missing folder, a file taken for a folder, a circle of links, too long a name
Refused(n) == CASE n = "dir" -> "EISDIR" [] n = "no/file" -> "ENOENT" [] n = "plain/file" -> "ENOTDIR" [] n = "loop" -> "ELOOP" [] n = "long" -> "ENAMETOOLONG" [] OTHER -> ""
Has(s, n) == n \in DOMAIN s.disk
Put(s, n, c) == [s EXCEPT !.disk = [m \in DOMAIN s.disk \cup {n} |-> IF m = n THEN c ELSE s.disk[m]]]
Sync(s, i) == IF s.f[i].open = 1 THEN [Put(s, s.f[i].name, Runs(s.disk[s.f[i].name], s.f[i].pend)) EXCEPT !.f[i].pend = <<>>] ELSE s
Close(s, i) == [Sync(s, i) EXCEPT !.f[i] = None]
Make(s, n, m) == IF m = 0 \/ ~Has(s, n) THEN Put(s, n, <<>>) ELSE s
Open(s0, i, n, m, bad) ==
  LET s == Close(s0, i) e == IF bad[1] = "open" THEN bad[2] ELSE Refused(n) IN
  IF e # "" THEN One(s, "throw:" \o OpenErr(e))
  ELSE IF bad[1] = "fdopen" THEN One(Make(s, n, m), "throw:" \o OpenErr(bad[2]))
  ELSE One([Make(s, n, m) EXCEPT !.f[i] = [open |-> 1, name |-> n, mode |-> m, pend |-> <<>>]], "ok:1" )
Fails(s, v, e) == One(s, IF s.dbg = 1 THEN "throw:" \o e ELSE v \o ":" \o e)
Write(s, i, ch, n, bad) ==
  IF s.f[i].open = 0 THEN Fails(s, "-1", "Open")
  ELSE IF bad /\ n > 0 THEN Fails(s, "-1", "Write")
  ELSE One([s EXCEPT !.f[i].pend = Runs(@, <<<<ch, n>>>>)], "ok:" \o ToString(n))
Flush(s, i, bad) ==
  IF s.f[i].open = 0 THEN Fails(s, "0", "Open")
  ELSE IF bad THEN Fails(s, "0", "Unknown")
  ELSE One(Sync(s, i), "ok:1")
Free(s, i, n) == \A j \in DOMAIN s.f : j = i \/ s.f[j].open = 0 \/ s.f[j].name # n
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "mode" -> Mode(s, c[2])
    [] op = "new" -> One(Close(s, c[2]), "ok")                                                     \* the old one ends, a new one
    [] op \in {"make", "open"} -> IF Free(s, c[2], c[3]) THEN Open(s, c[2], c[3], c[4], <<"", "">>) ELSE {}       \* <<open, i, name, mode>>
    [] op = "openbad" -> IF Free(s, c[2], c[3]) THEN Open(s, c[2], c[3], c[4], <<c[5], c[6]>>) ELSE {}      \* the system call fails with an error
    [] op = "close" -> One(Close(s, c[2]), "ok:1")
    [] op = "closebad" -> IF s.f[c[2]].open = 0 THEN One(s, "ok:1") ELSE One(Close(s, c[2]), "throw:" \o CloseErr(c[3]))
    [] op = "endbad" -> One(Close(s, c[2]), "ok")
    [] op = "isopen" -> One(s, ToString(s.f[c[2]].open))
    [] op = "name" -> IF s.f[c[2]].open = 1 THEN One(s, s.f[c[2]].name) ELSE {}
    [] op = "w" -> Write(s, c[2], c[4], c[5], FALSE)                                               \* <<w, i, way, character, n>>
    [] op = "wbad" -> Write(s, c[2], c[4], c[5], TRUE)
    [] op = "flush" -> Flush(s, c[2], FALSE)
    [] op = "flushbad" -> Flush(s, c[2], TRUE)
    [] op = "look" -> IF \E i \in DOMAIN s.f : s.f[i].open = 1 /\ s.f[i].name = c[2] /\ s.f[i].pend # <<>> THEN {} ELSE One(s, IF Has(s, c[2]) THEN Show(s.disk[c[2]]) \o "." ELSE "none")
    [] op = "fds" -> One(s, ToString(Cardinality({i \in DOMAIN s.f : s.f[i].open = 1})))
    [] op = "err" -> One(s, ErrOf(c[2], c[3]))                                                     \* the error, and the exception, of a system error
====
