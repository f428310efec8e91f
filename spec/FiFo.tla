---- MODULE FiFo ----
\* ecl::FiFo<T>: a sliding window over the last n values pushed.  q is the window (oldest first, Unk where
\* nothing has been stored); cells/run are the rotating buffer that has to refine it; get_idx exposes run.
EXTENDS Util
Unk == -1
Init0 == [n |-> 0, q |-> <<>>, cells |-> <<>>, run |-> 0]
New(n, v) == [n |-> n, q |-> Rep(n, v), cells |-> Rep(n, v), run |-> 0]
Known(o) == o.n > 0 /\ \A i \in 1..o.n : o.q[i] # Unk
RingOK(o) == /\ Len(o.q) = o.n
             /\ \A i \in 1..o.n : o.q[i] = o.cells[((o.run + i - 1) % o.n) + 1]
Step(s, c) ==
  CASE c[1] = "new"  -> One(New(c[2], c[3]), "ok")
    [] c[1] = "push" -> One([s EXCEPT !.q = Append(Tail(@), c[2]), !.cells = [@ EXCEPT ![s.run + 1] = c[2]],
                                      !.run = (@ + 1) % s.n], "ok")
    [] c[1] = "fill" -> One([s EXCEPT !.q = Rep(s.n, c[2]), !.cells = Rep(s.n, c[2])], "ok")
    [] c[1] = "at"   -> One(s, ToString(s.q[c[2] + 1]))
    [] c[1] = "put"  -> One([s EXCEPT !.q = [@ EXCEPT ![c[2] + 1] = c[3]],
                                      !.cells = [@ EXCEPT ![((s.run + c[2]) % s.n) + 1] = c[3]]], "ok")
    [] c[1] = "all"  -> One(s, JoinI(s.q))
    [] c[1] = "idx"  -> One(s, ToString(s.run))
    [] c[1] = "resize" -> IF c[2] = 0 THEN One(s, "throw:OutOfRange") ELSE One(New(c[2], Unk), "ok")
====
