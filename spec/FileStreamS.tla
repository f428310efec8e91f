---- MODULE FileStreamS ----
\* Streams onto files: two log streams (0, 1) and a shared file stream (2), which share one open file per name, and a plain file stream (3).
\* Log streams put the time and the header of the mode in front of what is logged in that mode, if it is enabled.
EXTENDS NumText
None == [on |-> 0, name |-> "", buf |-> "", hdr |-> 1, stamp |-> 1, modes |-> [m \in {} |-> ""]]
Init0 == [dbg |-> 1, sec |-> 0, ns |-> 0, disk |-> [n \in {} |-> ""], file |-> [n \in {} |-> ""], f |-> [i \in 0..3 |-> None]]
With(d, n, c) == [m \in DOMAIN d \cup {n} |-> IF m = n THEN c ELSE d[m]]
Without(d, n) == [m \in DOMAIN d \ {n} |-> d[m]]
Users(s, n) == {i \in DOMAIN s.f : s.f[i].on = 1 /\ s.f[i].name = n}
Refused(n) == CASE n = "dir" -> "InvalidObject" [] n = "no/file" -> "NotFound" [] OTHER -> ""
Sync(s, i) == [s EXCEPT !.file[s.f[i].name] = @ \o s.f[i].buf, !.f[i].buf = ""]
Leave(s, i) ==
  IF s.f[i].on = 0 THEN s
  ELSE LET n == s.f[i].name t == [Sync(s, i) EXCEPT !.f[i].on = 0] IN IF Users(t, n) = {} THEN [t EXCEPT !.disk = With(@, n, t.file[n]), !.file = Without(@, n)] ELSE t
New(s, i) == [Leave(s, i) EXCEPT !.f[i] = None]
\* plain files have names of their own
Fits(s, i, n) == Refused(n) # "" \/ ((i = 3) <=> (n \in {"p", "q"}))
Open(s0, i, n, m, early) ==
  LET s == Leave(s0, i) IN
  IF ~Fits(s0, i, n) THEN {}
  ELSE IF n \in DOMAIN s.file THEN One([s EXCEPT !.f[i].on = 1, !.f[i].name = n], "ok")
  ELSE IF Refused(n) # "" THEN One(s, "throw:" \o Refused(n))
  ELSE LET c == IF m = 1 /\ n \in DOMAIN s.disk THEN s.disk[n] ELSE "" IN One([s EXCEPT !.f[i].on = 1, !.f[i].name = n, !.disk = With(@, n, c), !.file = With(@, n, c)], "ok")
Say(s, i, t, r) == IF s.f[i].on = 0 THEN (IF s.dbg = 1 THEN One(s, "throw:Open") ELSE {}) ELSE IF Len(s.f[i].buf) + Len(t) > 4000 THEN {} ELSE One([s EXCEPT !.f[i].buf = @ \o t], r)
Flush(s, i) == IF s.f[i].on = 0 THEN (IF s.dbg = 1 THEN One(s, "throw:Open") ELSE {}) ELSE One(Sync(s, i), "ok")
Is(s, i, m) == m \in DOMAIN s.f[i].modes
Front(s, i, m) ==
  LET f == s.f[i] st == IF f.stamp = 1 THEN ToString(s.sec) \o "." \o PadZ(ToString(s.ns), 9) \o " " ELSE "" h == IF f.hdr = 1 THEN "[" \o (IF Is(s, i, m) THEN f.modes[m] ELSE "") \o "] " ELSE ""
  IN st \o h \o (IF f.stamp = 1 \/ f.hdr = 1 THEN ": " ELSE "")
Step(s, c) ==
  LET op == c[1] i == c[2] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
    [] op = "tick" -> One([s EXCEPT !.sec = c[2], !.ns = c[3]], "ok")
    [] op = "new" -> One(New(s, i), "ok")
    [] op = "make" -> Open(New(s, i), i, c[3], IF c[4] = 1 THEN 1 ELSE 0, TRUE)                    \* <<make, i, name, 0 new, 1 append, 2 no mode given>>
    [] op = "open" -> Open(s, i, c[3], c[4], FALSE)
    [] op = "isopen" -> One(s, ToString(s.f[i].on))
    [] op = "say" -> Say(s, i, c[4], "ok")                                                          \* <<say, i, way, text>>
    [] op = "flush" -> Flush(s, i)
    [] op = "FLUSH" -> IF DOMAIN s.f[i].modes = {} THEN One(s, "ok") ELSE Flush(s, i)
    [] op = "on" -> One([s EXCEPT !.f[i].modes = With(@, c[3], c[4])], "ok")
    [] op = "on0" -> One([s EXCEPT !.f[i].modes = With(@, c[3], "")], "ok")
    [] op = "off" -> One([s EXCEPT !.f[i].modes = Without(@, c[3])], "ok")
    [] op = "hdr" -> One([s EXCEPT !.f[i].hdr = c[3]], "ok")
    [] op = "stamp" -> One([s EXCEPT !.f[i].stamp = c[3]], "ok")
    [] op = "any" -> One(s, IF DOMAIN s.f[i].modes = {} THEN "0" ELSE "1")
    [] op = "is" -> One(s, IF Is(s, i, c[3]) THEN "1" ELSE "0")
    [] op = "log" -> IF ~Is(s, i, c[3]) THEN One(s, "ok:0") ELSE Say(s, i, Front(s, i, c[3]) \o c[4] \o "1", "ok:1")   \* what is logged is not even worked out unless the mode is enabled
    [] op = "log0" -> Say(s, i, Front(s, i, c[3]) \o c[4], "ok")
    [] op = "look" -> IF c[2] \in DOMAIN s.file THEN {} ELSE One(s, IF c[2] \in DOMAIN s.disk THEN "=" \o s.disk[c[2]] ELSE "none")
    [] op = "fds" -> One(s, ToString(Cardinality(DOMAIN s.file)))
    [] op = "race" -> One(s, "ok")
====
