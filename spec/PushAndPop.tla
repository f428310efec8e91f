---- MODULE PushAndPop ----
\* ecl::PushAndPop : a bounded queue.  push_back on a full queue drops the oldest element, pop_front removes
\* the oldest, [i] is the i-th oldest.
\*
\* Two levels live in one state: q is the abstract queue every answer is computed from; cells/lead/fol are the
\* ring the implementation keeps.  RingOK says the ring refines the queue; it is checked by TLC, and the
\* ring positions make the generated behaviours visit every rotation of the real buffer.
EXTENDS Util

None == -1          \* content of a cell nothing was stored in
Blank == [kind |-> "none", cap |-> 0, cells |-> <<>>, lead |-> 0, fol |-> 0, q |-> <<>>, fresh |-> FALSE]
Init0 == [a |-> Blank, b |-> Blank]
Objs == {"a", "b"}

Size(o) == Len(o.q)
N(o) == o.cap + 1
View(o) == ";n=" \o ToString(Size(o)) \o ";" \o JoinI(o.q)

New(kind, cap, v) == [kind |-> kind, cap |-> cap, cells |-> Rep(cap + 1, v), lead |-> 0, fol |-> 0,
                      q |-> <<>>, fresh |-> v # None]
\* cells outside the queue are dead: forget them
Norm(o) == IF o.fresh THEN o ELSE
  [o EXCEPT !.cells = [i \in 1..N(o) |-> IF (i - 1 - o.fol + N(o)) % N(o) < Len(o.q) THEN @[i] ELSE None]]
Push(o, v) ==
  LET l == (o.lead + 1) % N(o)
      f == IF l = o.fol THEN (o.fol + 1) % N(o) ELSE o.fol
      q == Append(o.q, v)
  IN [o EXCEPT !.cells = [@ EXCEPT ![o.lead + 1] = v], !.lead = l, !.fol = f, !.fresh = FALSE,
               !.q = IF Len(q) > o.cap THEN Tail(q) ELSE q]
Pop(o) == [o EXCEPT !.fol = (@ + 1) % N(o), !.q = Tail(@)]
Fill(o, v) == [o EXCEPT !.cells = Rep(N(o), v), !.q = Rep(Len(@), v), !.fresh = TRUE]
Clear(o) == [o EXCEPT !.lead = 0, !.fol = 0, !.q = <<>>]
Put(o, i, v) == [o EXCEPT !.cells = [@ EXCEPT ![((o.fol + i) % N(o)) + 1] = v], !.q = [@ EXCEPT ![i + 1] = v],
                          !.fresh = FALSE]

\* c = <<op, object, args...>>
Step(s, c) ==
  LET o == s[c[2]]
      Upd(p, ans) == One([s EXCEPT ![c[2]] = Norm(p)], ans \o View(p))
  IN CASE c[1] = "new"    -> Upd(New(c[3], c[4], c[5]), "ok")
       [] c[1] = "push"   -> Upd(Push(o, c[3]), "ok")
       [] c[1] = "pop"    -> IF Size(o) = 0 THEN Upd(o, "throw:OutOfRange") ELSE Upd(Pop(o), ToString(o.q[1]))
       [] c[1] = "fill"   -> Upd(Fill(o, c[3]), "ok")
       [] c[1] = "clear"  -> Upd(Clear(o), "ok")
       [] c[1] = "at"     -> Upd(o, ToString(o.q[c[3] + 1]))
       [] c[1] = "put"    -> Upd(Put(o, c[3], c[4]), "ok")
       [] c[1] = "raw"    -> Upd(o, ToString(o.cells[c[3] + 1]))  \* only while every cell holds the fill value
       [] c[1] = "asize"  -> Upd(o, ToString(N(o)))
       [] c[1] = "resize" -> Upd([New(o.kind, c[3], None) EXCEPT !.fresh = FALSE], "ok") \* contents are discarded
       [] c[1] = "copy"   -> Upd(s[c[3]], "ok")

RingOK(o) == o.kind # "none" =>
   /\ Len(o.q) <= o.cap
   /\ Len(o.q) = (o.lead - o.fol + N(o)) % N(o)
   /\ \A i \in 1..Len(o.q) : o.q[i] = o.cells[((o.fol + i - 1) % N(o)) + 1]
====
