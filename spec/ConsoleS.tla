---- MODULE ConsoleS ----
\* The console devices: what is held back for the output and the error console, what came out, and what the user typed so far.
\* Texts going out are runs <<code, how many>>.
EXTENDS Util
Init0 == [dbg |-> 1, held |-> [d \in 0..1 |-> [i \in 0..1 |-> <<>>]], out |-> [d \in 0..1 |-> <<>>], typed |-> <<>>, done |-> 0]
RECURSIVE Runs(_, _)
Runs(q, t) == IF t = <<>> THEN q ELSE IF t[1][2] = 0 THEN Runs(q, Tail(t)) ELSE IF q # <<>> /\ q[Len(q)][1] = t[1][1] THEN Runs([q EXCEPT ![Len(q)][2] = @ + t[1][2]], Tail(t)) ELSE Runs(Append(q, t[1]), Tail(t))
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE ToString(q[1][1]) \o "*" \o ToString(q[1][2]) \o ";" \o Show(Tail(q))
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Size(Tail(q))
\* the buffers of two consoles onto the same output empty in an order that depends on their size: only one holds text at a time
Alone(s, d, i) == s.held[d][1 - i] = <<>>
Write(s, d, i, ch, n) == IF ~Alone(s, d, i) THEN {} ELSE One([s EXCEPT !.held[d][i] = Runs(@, <<<<ch, n>>>>)], "ok:" \o ToString(n))
Flush(s, d, i) == One([s EXCEPT !.out[d] = Runs(@, s.held[d][i]), !.held[d][i] = <<>>], "ok")
Drop(s, d, i, r) == One([s EXCEPT !.held[d][i] = <<>>], r)
\* failing: only judged where the text held back cannot have come out before
WriteBad(s, d, i, n) == IF s.held[d][i] # <<>> \/ n <= 5000 \/ ~Alone(s, d, i) THEN {} ELSE Drop(s, d, i, IF s.dbg = 1 THEN "throw:Write" ELSE "ok:" \o ToString(n))
FlushBad(s, d, i) == IF s.held[d][i] = <<>> \/ Size(s.held[d][i]) > 2000 THEN {} ELSE Drop(s, d, i, IF s.dbg = 1 THEN "throw:Write" ELSE "ok")
Look(s, d) == IF s.held[d][0] # <<>> \/ s.held[d][1] # <<>> THEN {} ELSE One(s, Show(s.out[d]) \o ".")
\* never more than a buffer is held back
Late(s, d, n) == IF n # Size(s.out[d]) + Size(s.held[d][0]) + Size(s.held[d][1]) THEN {} ELSE One(s, "1")
ReadFail(s) == One(s, IF s.dbg = 1 THEN "throw:Read" ELSE "ok:0")
ReadC(s) == IF s.typed # <<>> THEN One([s EXCEPT !.typed = Tail(@)], "ok:1:" \o ToString(s.typed[1])) ELSE IF s.done = 1 THEN ReadFail(s) ELSE {}
ReadS(s, n) ==
  LET nl == {k \in 1..Len(s.typed) : s.typed[k] = 10} first == IF nl = {} THEN n ELSE CHOOSE k \in nl : (\A j \in nl : k <= j) take == Min2(Min2(first, n - 1), Len(s.typed)) IN
  IF n < 2 \/ (\E k \in 1..Len(s.typed) : s.typed[k] = 0) THEN {}
  ELSE IF s.typed = <<>> THEN (IF s.done = 1 THEN ReadFail(s) ELSE {})
  ELSE IF take < n - 1 /\ take # first /\ s.done = 0 THEN {}
  ELSE One([s EXCEPT !.typed = SubSeq(@, take + 1, Len(@))], "ok:" \o ToString(take) \o ":" \o JoinI(SubSeq(s.typed, 1, take)))
Step(s, c) ==
  CASE c[1] = "mode" -> One([s EXCEPT !.dbg = c[2]], "ok")
    [] c[1] = "w" -> Write(s, c[2], c[3], c[5], c[6])
    [] c[1] = "wbad" -> WriteBad(s, c[2], c[3], c[6])
    [] c[1] = "flush" -> Flush(s, c[2], c[3])
    [] c[1] = "flushbad" -> FlushBad(s, c[2], c[3])
    [] c[1] = "look" -> Look(s, c[2])
    [] c[1] = "late" -> Late(s, c[2], c[3])
    [] c[1] = "open" -> One(s, "1")
    [] c[1] = "feed" -> IF s.done = 1 THEN {} ELSE One([s EXCEPT !.typed = @ \o c[2]], "ok")
    [] c[1] = "end" -> IF s.done = 1 THEN {} ELSE One([s EXCEPT !.done = 1], "ok")
    [] c[1] = "rc" -> ReadC(s)
    [] c[1] = "rs" -> ReadS(s, c[2])
    [] OTHER -> {}
====
