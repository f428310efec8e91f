---- MODULE ThreadS ----
\* Thread objects, the tasks they start (which may outlive them) and threadable objects.
\* st: "new" (never started), "run", "end" (its task came to an end), "asked" (cancelled), "joined"
EXTENDS Util
None == [st |-> "new", kind |-> 0]
Init0 == [dbg |-> 1, t |-> [i \in 0..1 |-> None], orphan |-> <<>>, done |-> 0, j |-> [i \in 0..1 |-> 0]]
Nice(p) == CASE p = 2 -> "20" [] p = 3 -> "10" [] p = 4 -> "0" [] p = 5 -> "-10" [] p = 6 -> "-20" [] OTHER -> "own"
Fails(s, e, v) == One(s, IF s.dbg = 1 THEN "throw:" \o e ELSE v)
Err(e) == CASE e = "EINVAL" -> "InvalidInput" [] e = "EAGAIN" -> "Memory" [] e = "EPERM" -> "Permissions" [] OTHER -> "Unknown"
\* ending an object does not end what it runs
Drop(s, i) == [s EXCEPT !.t[i] = None, !.orphan = IF s.t[i].st = "run" THEN Append(@, s.t[i].kind) ELSE @]
Go(s, i, kind, pri, stack) == IF stack = 1 /\ s.dbg = 1 THEN One(s, "throw:Configuration") ELSE One([s EXCEPT !.t[i] = [st |-> "run", kind |-> kind]], "ok:" \o Nice(pri))
Start(s, i, kind, pri, stack) == IF s.t[i].st # "new" THEN Fails(s, "Busy", "Busy") ELSE Go(s, i, kind, pri, stack)
StartBad(s, i, e) == IF s.t[i].st # "new" THEN Fails(s, "Busy", "Busy") ELSE Fails(s, Err(e), Err(e))
Cancel(s, i) == CASE s.t[i].st \in {"run"} -> One([s EXCEPT !.t[i].st = "asked"], "ok")
  [] s.t[i].st = "asked" -> {[s |-> s, r |-> x] : x \in {"ok", "throw:InvalidInput"}}
  [] OTHER -> Fails(s, "InvalidInput", "ok")
Join(s, i) == CASE s.t[i].st = "run" -> {} [] s.t[i].st = "new" -> One(s, "ok") [] s.t[i].st = "joined" -> Fails(s, "InvalidInput", "ok") [] OTHER -> One([s EXCEPT !.t[i].st = "joined"], "ok")
Alive(s, i) == s.t[i].st = "run"
\* what each running task of kind 2 holds is its own copy of the function object
Copies(s) == Cardinality({i \in 0..1 : Alive(s, i) /\ s.t[i].kind = 2}) + Cardinality({k \in 1..Len(s.orphan) : s.orphan[k] = 2})
Handles(s) == Cardinality({i \in 0..1 : s.t[i].st \in {"run", "end", "asked"}})
Step(s, c) ==
  LET op == c[1] i == c[2] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
    [] op = "new" -> One(Drop(s, i), "ok")
    [] op = "start" -> Start(s, i, c[3], c[4], c[5])                                     \* <<start, i, kind, priority, stack>>
    [] op = "make" -> Go(Drop(s, i), i, c[3], c[4], c[5])
    [] op = "startbad" -> StartBad(s, i, c[4])                                           \* <<startbad, i, kind, error>>
    [] op = "makebad" -> LET t == Drop(s, i) IN One(t, IF s.dbg = 1 THEN "throw:" \o Err(c[4]) ELSE "quiet")
    [] op = "running" -> One(s, IF Alive(s, i) THEN "1" ELSE "0")
    [] op = "finish" -> IF Alive(s, i) THEN One([s EXCEPT !.t[i].st = "end", !.done = @ + 1], "ok") ELSE {}
    [] op = "orphan" -> IF s.orphan # <<>> THEN One([s EXCEPT !.orphan = Tail(@), !.done = @ + 1], "ok") ELSE {}
    [] op = "cancel" -> Cancel(s, i)
    [] op = "join" -> Join(s, i)
    [] op = "joinw" -> IF Alive(s, i) THEN One([s EXCEPT !.t[i].st = "joined", !.done = @ + 1], "ok:ok") ELSE {}
    [] op = "self" -> IF Alive(s, i) THEN Fails(s, "Usage", "ok") ELSE {}
    [] op = "stat" -> One(s, ToString(s.done) \o ":" \o ToString(Copies(s)) \o ":" \o ToString(Handles(s)))
    \* threadables: one task at a time, again and again
    [] op = "jstart" -> IF s.j[i] = 1 THEN One(s, "0") ELSE IF Len(c) > 3 THEN Fails(s, Err(c[4]), "0") ELSE One([s EXCEPT !.j[i] = 1], "ok:" \o Nice(c[3]))
    [] op = "jrunning" -> One(s, ToString(s.j[i]))
    [] op = "jfinish" -> IF s.j[i] = 1 THEN One([s EXCEPT !.j[i] = 0, !.done = @ + 1], "ok") ELSE {}
    [] OTHER -> {}
====
