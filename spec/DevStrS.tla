---- MODULE DevStrS ----
\* Streams over devices. Ends: 0 serial stream and 1 its peer; 2 client stream and 3 server stream; 4 console input; 5, 6 console and error output.
\* q[e]: the characters that end e may read ("_" a blank, "|" a new line).
EXTENDS Util
Init0 == [dbg |-> 1, on |-> [e \in 0..6 |-> IF e >= 4 THEN 1 ELSE 0], link |-> 0, q |-> [e \in 0..6 |-> <<>>], line |-> "none"]
Peer(e) == CASE e = 0 -> 1 [] e = 2 -> 3 [] e = 3 -> 2 [] OTHER -> e
RECURSIVE Str(_), Chars(_)
Str(q) == IF q = <<>> THEN "" ELSE q[1] \o Str(Tail(q))
Chars(t) == IF t = "" THEN <<>> ELSE <<Ch(t, 1)>> \o Chars(SubSeq(t, 2, Len(t)))
White(x) == x \in {"_", "|"}
RECURSIVE Skip(_), Upto(_)
Skip(q) == IF q # <<>> /\ White(q[1]) THEN Skip(Tail(q)) ELSE q
Upto(q) == IF White(q[1]) THEN <<>> ELSE <<q[1]>> \o Upto(Tail(q))
Ready(s, e) == CASE e \in {2, 3} -> s.link = 1 [] OTHER -> s.on[e] = 1
Settings(b, d, st, pa) == ToString(b) \o "," \o ToString(d) \o "," \o (IF st = 0 THEN "1" ELSE "2") \o "," \o (CASE pa = 0 -> "none" [] pa = 1 -> "odd" [] OTHER -> "even")
Put(s, e, t, fin) == IF s.on[e] = 0 THEN One(s, "throw:Open") ELSE One([s EXCEPT !.q[Peer(e)] = @ \o Chars(t) \o <<IF fin = 1 THEN "|" ELSE "_">>], "ok")
Get(s, e, k) ==
  IF s.on[e] = 0 THEN One(s, "throw:Open")
  ELSE LET q == Skip(s.q[e]) IN
    IF k = "raw" THEN One([s EXCEPT !.q[e] = Tail(@)], "ok:" \o (LET x == s.q[e][1] IN IF x = "_" THEN "blank" ELSE IF x = "|" THEN "line" ELSE x))
    ELSE IF k = "char" THEN One([s EXCEPT !.q[e] = Tail(q)], "ok:" \o q[1])
    ELSE LET w == Upto(q) IN One([s EXCEPT !.q[e] = SubSeq(q, Len(w) + 2, Len(q))], "ok:" \o Str(w))
Shut(s, e) == IF e = 0 THEN [s EXCEPT !.on[0] = 0, !.q[0] = <<>>] ELSE [s EXCEPT !.on[e] = 0, !.link = 0, !.q[2] = <<>>, !.q[3] = <<>>]
Step(s, c) == LET op == c[1] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
  [] op = "serial" -> IF c[2] >= 2 THEN One(Shut(s, 0), "throw:NotFound") ELSE One([s EXCEPT !.on[0] = 1, !.q[0] = <<>>, !.line = Settings(c[3], c[4], c[5], c[6])], "ok")
  [] op = "line" -> One(s, s.line)
  [] op = "server" -> One([s EXCEPT !.on[3] = 1], "ok")
  [] op = "client" -> One([s EXCEPT !.on[2] = 0], "throw:ConnectionRefused") \* nobody waits
  [] op = "link" -> One([s EXCEPT !.on[2] = 1, !.link = 1, !.q[2] = <<>>, !.q[3] = <<>>], "ok1")
  [] op = "close" -> One(Shut(s, c[2]), "ok")
  [] op = "isopen" -> One(s, ToString(s.on[c[2]]))
  [] op = "put" -> Put(s, c[2], c[4], c[5])
  [] op = "get" -> Get(s, c[2], c[3])
  [] op = "feed" -> One([s EXCEPT !.q[c[2]] = @ \o Chars(c[3])], "ok")
  [] op = "look" -> One([s EXCEPT !.q[c[2]] = <<>>], IF s.q[c[2]] = <<>> THEN "nothing" ELSE Str(s.q[c[2]]))
====
