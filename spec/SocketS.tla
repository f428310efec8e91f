---- MODULE SocketS ----
\* One SocketServer (end 1) and one SocketClient (end 0) on the loopback, with other parties on the machine holding files of their own.
EXTENDS Util
Quiet == [up |-> 0, got |-> <<>>, gone |-> 0]
\* open: the object says it is open; link: which ends still hold their side of the connection;
\* e[i]: what end i may still read; gone: its peer has left (1: in order, 2: with a reset)
Init0 == [dbg |-> 1, srv |-> 0, cli |-> 0, link |-> [i \in 0..1 |-> 0], e |-> [i \in 0..1 |-> Quiet], can |-> 0, f |-> <<>>]
Mode(s, d) == One([s EXCEPT !.dbg = d], "ok")
\* what the errors of the system calls are reported as
Err(k, e) ==
                CASE k = "recv" -> (CASE e \in {"EAGAIN", "EINTR"} -> "Interrupted" [] e \in {"EBADF", "ENOTSOCK"} -> "InvalidObject" [] e \in {"ECONNREFUSED", "ENOTCONN"} -> "Connection" [] e = "EFAULT" -> "SystemFailure" [] e = "EINVAL" -> "InvalidArg" [] e = "ENOMEM" -> "Memory" [] OTHER -> "Unknown")
          [] k = "send" -> (CASE e = "EAGAIN" -> "Blocking" [] e = "EACCES" -> "Permissions" [] e \in {"EBADF", "ENOTSOCK"} -> "InvalidObject" [] e \in {"ECONNRESET", "EINTR", "EPIPE"} -> "Interrupted" [] e = "EFAULT" -> "SystemFailure" [] e = "EINVAL" -> "InvalidArg" [] e \in {"EISCONN", "ENOTCONN"} -> "Connection" [] e = "EMSGSIZE" -> "Write" [] e = "ENOBUFS" -> "OutOfResources" [] e = "ENOMEM" -> "Memory" [] e = "EOPNOTSUPP" -> "NotSupported" [] OTHER -> "Unknown")
          [] k = "ioctl" -> (CASE e \in {"EBADF", "ENOTTY"} -> "InvalidObject" [] e = "EFAULT" -> "OutOfRange" [] e = "EINVAL" -> "InvalidArg" [] OTHER -> "Unknown")
          [] k = "connect" -> (CASE e \in {"EACCES", "EPERM"} -> "Permissions" [] e = "EADDRINUSE" -> "Busy" [] e = "EAFNOSUPPORT" -> "NotSupported" [] e = "EAGAIN" -> "OutOfResources" [] e \in {"EALREADY", "EINPROGRESS"} -> "Blocking" [] e \in {"EBADF", "ENOTSOCK"} -> "InvalidObject" [] e = "ECONNREFUSED" -> "ConnectionRefused" [] e = "EFAULT" -> "OutOfRange" [] e = "EINTR" -> "Interrupted" [] e = "EISCONN" -> "Connection" [] e = "ETIMEDOUT" -> "TimeOut" [] e \in {"ENETUNREACH", "EHOSTUNREACH"} -> "NotFound" [] OTHER -> "Unknown")
          [] k = "socket" -> (CASE e = "EACCES" -> "Open" [] e \in {"EAFNOSUPPORT", "EPROTONOSUPPORT"} -> "NotSupported" [] e = "EINVAL" -> "InvalidArg" [] e = "EMFILE" -> "OutOfRange" [] e = "ENFILE" -> "OutOfResources" [] e \in {"ENOBUFS", "ENOMEM"} -> "Memory" [] OTHER -> "Unknown")
          [] k = "accept" -> (CASE e = "EAGAIN" -> "Blocking" [] e \in {"EBADF", "ENOTSOCK", "EOPNOTSUPP"} -> "InvalidObject" [] e \in {"ECONNABORTED", "EINTR"} -> "Interrupted" [] e = "EINVAL" -> "Usage" [] e \in {"EMFILE", "ENFILE"} -> "OutOfResources" [] e \in {"EFAULT", "EPERM"} -> "Permissions" [] e \in {"ENOBUFS", "ENOMEM"} -> "Memory" [] e = "EPROTO" -> "InvalidArg" [] OTHER -> "Unknown")
          [] OTHER -> (CASE e \in {"EACCES", "EROFS"} -> "Permissions" [] e \in {"EADDRINUSE", "EINVAL"} -> "Busy" [] e \in {"EBADF", "ENOTSOCK", "EADDRNOTAVAIL", "ENOENT"} -> "InvalidObject" [] e = "EFAULT" -> "OutOfRange" [] e = "ELOOP" -> "SystemFailure" [] e \in {"ENAMETOOLONG", "ENOTDIR"} -> "InvalidArg" [] e = "ENOMEM" -> "Memory" [] OTHER -> "Unknown")
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
Text(q) == IF q = <<>> THEN "%e" ELSE Cat(q)
\* end i lets go of its side: with unread data the other end sees a reset
Drop(s, i) == IF s.link[i] = 0 THEN s ELSE [s EXCEPT !.link[i] = 0, !.e[i] = Quiet, !.e[1 - i].gone = IF s.link[1 - i] = 0 THEN 0 ELSE IF s.e[i].got # <<>> \/ @ = 2 THEN 2 ELSE 1]
CloseCli(s) == [Drop(s, 0) EXCEPT !.cli = 0]
CloseSrv(s) == [Drop(s, 1) EXCEPT !.srv = 0]
CloseEnd(s, i) == IF i = 0 THEN CloseCli(s) ELSE CloseSrv(s)
IsOpen(s, i) == IF i = 0 THEN s.cli ELSE s.srv
Here(s, i) == IsOpen(s, i) = 1 /\ s.link[i] = 1
\* the pending fault of these calls
Pend(s, K) == s.f # <<>> /\ s.f[1] \in K
Done(s) == [s EXCEPT !.f = <<>>]
Open(s0, p) == LET s == CloseSrv(s0) IN IF Pend(s, {"socket", "bind"}) THEN One(Done(s), "throw:" \o Err(s.f[1], s.f[2])) ELSE IF p = 1 THEN One(s, "throw:Busy") ELSE One([s EXCEPT !.srv = 1], "ok:1")
Fails(s, e) == One(s, IF s.dbg = 1 THEN "throw:" \o e ELSE "problem:" \o e)
Connect(s0) ==
  IF s0.srv = 0 \/ Pend(s0, {"socket", "connect", "accept"}) THEN {}
  ELSE LET s == CloseCli(Drop(s0, 1)) IN One([s EXCEPT !.cli = 1, !.link = [i \in 0..1 |-> 1], !.e = [i \in 0..1 |-> Quiet]], "ok:1")
Read(s, i, n) ==
  IF ~Here(s, i) THEN One(s, "disconnected")
  ELSE IF Pend(s, {"recv"}) THEN (IF s.f[2] = "ECONNRESET" THEN One(CloseEnd(Done(s), i), "hungup") ELSE Fails(Done(s), Err("recv", s.f[2])))
  ELSE IF n = 0 THEN (IF s.e[i].got = <<>> /\ s.e[i].gone # 1 THEN {} ELSE One(s, "ok:%e"))
  ELSE IF s.e[i].got # <<>> THEN LET k == Min2(IF Pend(s, {"part"}) THEN Min2(n, s.f[2]) ELSE n, Len(s.e[i].got)) IN One([(IF Pend(s, {"part"}) THEN Done(s) ELSE s) EXCEPT !.e[i].got = SubSeq(@, k + 1, Len(@))], "ok:" \o Text(SubSeq(s.e[i].got, 1, k)))
  ELSE IF s.e[i].gone # 0 THEN One(CloseEnd(IF Pend(s, {"part"}) THEN Done(s) ELSE s, i), "hungup")
  ELSE {}                                                            \* it would wait
Peek(s, i, n) ==
  IF ~Here(s, i) THEN One(s, "disconnected")
  ELSE IF Pend(s, {"recv"}) THEN Fails(Done(s), Err("recv", s.f[2]))
  ELSE IF s.e[i].got # <<>> THEN One(s, "ok:" \o Text(SubSeq(s.e[i].got, 1, Min2(n, Len(s.e[i].got)))))
  ELSE IF s.e[i].gone = 1 THEN One(s, "ok:%e") ELSE {}
Write(s, i, q) ==
  IF ~Here(s, i) THEN One(s, "disconnected")
  ELSE IF Pend(s, {"send"}) THEN (IF s.f[2] = "EPIPE" THEN One(CloseEnd(Done(s), i), "hungup") ELSE Fails(Done(s), Err("send", s.f[2])))
  ELSE IF s.e[i].gone = 0 THEN LET k == IF Pend(s, {"part"}) THEN Min2(Len(q), s.f[2]) ELSE Len(q) IN
       One([(IF Pend(s, {"part"}) THEN Done(s) ELSE s) EXCEPT !.e[1 - i].got = @ \o SubSeq(q, 1, k)], "ok:" \o ToString(k))
  ELSE {}
\* writing to a peer that has left: sooner or later this is noticed
WriteGone(s, i) == IF ~Pend(s, {"send", "part"}) /\ Here(s, i) /\ s.e[i].gone = 1 /\ s.e[i].got = <<>> THEN One(CloseEnd(s, i), "hungup") ELSE {}
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "mode" -> Mode(s, c[2])
    [] op = "sopen" -> Open(s, c[2])                                       \* port 1 belongs to somebody else
    [] op = "snew" -> LET t == CloseSrv(s) IN IF c[2] = 2 THEN One(t, "ok") ELSE Open(t, c[2])
    [] op = "connect" -> Connect(s)                                        \* the server listens, the client opens
    [] op = "refuse" -> One(CloseCli(IF Pend(s, {"socket", "connect"}) THEN Done(s) ELSE s), "throw:" \o (IF Pend(s, {"socket", "connect"}) THEN Err(s.f[1], s.f[2]) ELSE "ConnectionRefused"))        \* nobody listens there
    [] op = "nohost" -> One(CloseCli(IF Pend(s, {"socket"}) THEN Done(s) ELSE s), "throw:" \o (IF Pend(s, {"socket"}) THEN Err(s.f[1], s.f[2]) ELSE CASE c[2] \in {0, 1} -> "Open" [] c[2] = 2 -> "InvalidArg" [] OTHER -> "Unknown"))   \* unknown, try again, no address, others
    [] op = "cnew" -> One(CloseCli(s), "ok")
    [] op = "listen" -> IF s.srv = 0 THEN (IF Pend(s, {"accept"}) THEN One(Done(s), "throw:" \o Err("accept", s.f[2])) ELSE One(s, "throw:InvalidObject"))
                        ELSE IF Pend(s, {"accept"}) THEN One(Done(Drop(s, 1)), "throw:" \o Err("accept", s.f[2])) ELSE {}
    [] op = "isopen" -> One(s, ToString(IsOpen(s, c[2])))
    [] op = "close" -> One(CloseEnd(s, c[2]), "ok")
    [] op = "read" -> Read(s, c[2], c[3])
    [] op = "peek" -> Peek(s, c[2], c[3])
    [] op = "rem" -> IF ~Here(s, c[2]) THEN One(s, "disconnected") ELSE IF Pend(s, {"ioctl"}) THEN Fails(Done(s), Err("ioctl", s.f[2])) ELSE IF s.e[c[2]].gone = 2 THEN {} ELSE One(s, "ok:" \o ToString(Len(s.e[c[2]].got)))
    [] op = "w" -> Write(s, c[2], c[3])
    [] op = "wgone" -> WriteGone(s, c[2])
    [] op = "canary" -> One([s EXCEPT !.can = @ + 1], "ok")                \* somebody else opens a file
    [] op = "fds" -> One(s, ToString(s.can + s.srv + s.link[0] + s.link[1]))       \* files open in this process: nobody else's may be closed
    [] op = "err" -> One(s, Err(c[2], c[3]))
    [] op = "fail" -> One([s EXCEPT !.f = <<c[2], c[3]>>], "ok")             \* <<fail, call, error>>: the next such call fails
    [] op = "part" -> IF c[2] < 1 THEN {} ELSE One([s EXCEPT !.f = <<"part", c[2]>>], "ok")    \* the next transfer is of so many bytes at most
    [] OTHER -> {}
====
