---- MODULE SigSlotS ----
\* Signals and slots that meet on topics. A node (what handles share) publishes to topics and listens to topics; emitting runs every
\* node listening to a topic of the emitter: slots run their function, signals emit in turn. Nodes may change, act and end meanwhile.
EXTENDS Util
V == 8
F == 4
NN == 2 * V + 2
T == <<"a", "b", "c">>
NoNode == [k |-> "-", f |-> 0, pubs |-> {}, subs |-> {}]
NoAct == [f |-> -1, what |-> "", v |-> 0, t |-> ""]
Zero == [x \in 0..1 |-> [f \in 0..F - 1 |-> 0]]
\* h[v]: the node of a handle, node[n]: k: signal, slot or both, f: its function, with topics by number;
\* act: what one function does when it runs next; run: the emission halted in a slot (its frames, the slot, its log, the emitter);
\* dying: a node that ends as soon as it has run
Init0 == [kind |-> 1, h |-> [v \in 0..V - 1 |-> 0], node |-> [n \in 1..NN |-> NoNode], act |-> NoAct, run |-> [on |-> 0, stk |-> <<>>, q |-> 0, n |-> 0, log |-> Zero], dying |-> 0]
Topic(t) == CHOOSE x \in 1..3 : T[x] = t
Sorted(S) == JoinS([x \in 1..Cardinality(S) |-> T[CHOOSE y \in S : Cardinality({z \in S : z < y}) = x - 1]])
\* nodes running in an emission halted
Held(s) == IF s.run.on = 0 THEN {} ELSE {s.run.q} \cup {s.run.stk[x].n : x \in 1..Len(s.run.stk) - 1}
\* the numbers a new node may have: one nobody knows of, or one (as addresses are used again) that an emission halted still had to reach
Free(s) == {n \in 1..NN : s.node[n].k = "-" /\ n # s.dying}
Known(s) == IF s.run.on = 0 THEN {} ELSE UNION {UNION {s.run.stk[x].left[y].to : y \in 1..Len(s.run.stk[x].left)} : x \in 1..Len(s.run.stk)} \cup {s.run.stk[x].n : x \in 1..Len(s.run.stk)} \cup {s.run.q, s.run.n}
Fresh(s) == LET N == Free(s) \ Known(s) IN {CHOOSE n \in N : \A m \in N : n <= m} \cup (Free(s) \cap (Known(s) \ (Held(s) \cup {s.run.n})))
Handles(s, n) == {v \in 0..V - 1 : s.h[v] = n}
Disc(s, n) == [s EXCEPT !.node[n].pubs = {}, !.node[n].subs = {}]
\* ending a handle: the last one takes the node with it
End(s, v) == LET n == s.h[v]  s2 == [s EXCEPT !.h[v] = 0] IN IF n = 0 THEN s ELSE IF Handles(s2, n) = {} THEN [s2 EXCEPT !.node[n] = NoNode] ELSE s2
Frame(s, n, x) == [n |-> n, x |-> x, left |-> [y \in 1..Cardinality(s.node[n].pubs) |-> LET t == CHOOSE t \in s.node[n].pubs : Cardinality({z \in s.node[n].pubs : z < t}) = y - 1 IN [t |-> t, to |-> {q \in 1..NN : t \in s.node[q].subs}]]]
Count(s, log, f, x) == IF s.kind = 0 THEN [log EXCEPT ![0][f] = @ + 1] ELSE [log EXCEPT ![x][f] = @ + 1]
\* runs what is left of an emission in every order there is; e: how it came to an end
RECURSIVE Go(_, _, _, _)
Go(s, stk, log, pausing) ==
  IF stk = <<>> THEN {[s |-> s, log |-> log, e |-> "done", stk |-> <<>>, q |-> 0]}
  ELSE LET fr == Head(stk) IN
  IF fr.left = <<>> THEN Go(s, Tail(stk), log, pausing)
  ELSE LET tp == Head(fr.left) IN
  IF tp.to = {} THEN Go(s, <<[fr EXCEPT !.left = Tail(@)]>> \o Tail(stk), log, pausing)
  ELSE UNION {
    LET st2 == <<[fr EXCEPT !.left = <<[tp EXCEPT !.to = @ \ {q}]>> \o Tail(@)]>> \o Tail(stk) IN
    IF ~(tp.t \in s.node[fr.n].pubs /\ tp.t \in s.node[q].subs) THEN Go(s, st2, log, pausing)
    ELSE IF s.node[q].k = "signal" THEN Go(s, <<Frame(s, q, fr.x)>> \o st2, log, pausing)
    ELSE LET f == s.node[q].f  l2 == Count(s, log, f, fr.x)  a == s.act  s2 == [s EXCEPT !.act = NoAct] IN
      IF a.f # f THEN Go(s, st2, l2, pausing)
      ELSE IF a.what = "throw" THEN {[s |-> s2, log |-> l2, e |-> "thrown", stk |-> <<>>, q |-> 0]}
      ELSE IF a.what = "pause" THEN {[s |-> s2, log |-> l2, e |-> IF pausing = 1 THEN "in" ELSE "bad", stk |-> st2, q |-> q]}
      ELSE IF s2.h[a.v] = 0 THEN Go(s2, st2, l2, pausing)
      ELSE IF a.what = "drop" THEN Go(Disc(s2, s2.h[a.v]), st2, l2, pausing)
      ELSE IF a.what = "end" THEN Go(End(s2, a.v), st2, l2, pausing)
      ELSE IF a.what = "link" THEN Go([s2 EXCEPT !.node[s2.h[a.v]].subs = @ \cup {Topic(a.t)}], st2, l2, pausing)
      ELSE Go(s2, <<Frame(s2, s2.h[a.v], 1)>> \o st2, l2, pausing)
    \* without anything that acts the order makes no difference
    : q \in IF s.act.f = -1 THEN {CHOOSE q \in tp.to : TRUE} ELSE tp.to}
Show(l) == JoinI([f \in 1..F |-> l[0][f - 1]]) \o "/" \o JoinI([f \in 1..F |-> l[1][f - 1]])
RECURSIVE JoinC(_)
JoinC(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ";" \o JoinC(Tail(q))
Stats(s) ==
  LET N(t) == Cardinality({n \in 1..NN : t \in s.node[n].subs})  M(t) == Cardinality({n \in 1..NN : t \in s.node[n].pubs})
      U == {t \in 1..3 : N(t) + M(t) > 0} IN
  JoinC([x \in 1..Cardinality(U) |-> LET t == CHOOSE t \in U : Cardinality({z \in U : z < t}) = x - 1 IN T[t] \o ":" \o ToString(N(t)) \o ":" \o ToString(M(t))])
New(s, v, k, f, ps, ss) == {[s |-> [s EXCEPT !.h[v] = n, !.node[n] = [k |-> k, f |-> f, pubs |-> ps, subs |-> ss]], r |-> "ok"] : n \in Fresh(s)}
\* may this handle end now? not while its node is running or emitting, unless someone else holds it
MayEnd(s, v) == LET n == s.h[v] IN Cardinality(Handles(s, n)) > 1 \/ (n \notin Held(s) /\ ~(s.run.on = 1 /\ n = s.run.n))
ActOk(s, a) == a.f = -1 \/ (LET n == s.h[a.v] IN
  CASE a.what \in {"throw", "pause", "drop"} -> TRUE
    [] n = 0 -> TRUE
    [] a.what = "link" -> s.node[n].k = "slot"
    [] a.what = "end" -> s.node[n].k = "slot" /\ (s.node[n].f # a.f \/ Cardinality(Handles(s, n)) > 1)
    [] a.what = "emit" -> s.node[n].k = "signal")
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "kind" -> One([s EXCEPT !.kind = c[2]], "ok")
    [] op = "stats" -> One(s, Stats(s))
    [] op = "race" -> One(s, "ok")
    \* what a function does when it next runs
    [] op = "arm" -> IF s.run.on = 1 THEN {} ELSE One([s EXCEPT !.act = [f |-> c[2], what |-> c[3], v |-> c[4], t |-> c[5]]], "ok")
    \* when all have ended nothing is left
    [] op = "over" -> IF s.run.on = 1 THEN {} ELSE One([Init0 EXCEPT !.kind = s.kind], "ok")
    \* the slot halted goes on, and with it the rest of the emission; what waited for it to end does so
    [] op = "go" -> IF s.run.on = 0 THEN {} ELSE
         {[s |-> [o.s EXCEPT !.run = Init0.run, !.dying = 0, !.node = [n \in 1..NN |-> IF n = s.dying THEN NoNode ELSE o.s.node[n]]],
           r |-> Show(o.log) \o (IF s.dying # 0 THEN ":ended" ELSE "")] : o \in Go(s, s.run.stk, s.run.log, 0)}
    [] OTHER ->
  LET v == c[2]  n == s.h[v] IN
  IF op \in {"signal", "slot", "raw", "copy"} THEN
    IF n # 0 THEN {} ELSE
    CASE op = "signal" -> New(s, v, "signal", 0, IF Len(c) > 2 THEN {Topic(c[3])} ELSE {}, {})
      [] op = "slot" -> New(s, v, "slot", c[3], {}, IF Len(c) > 3 THEN {Topic(c[4])} ELSE {})
      [] op = "raw" -> New(s, v, "both", c[3], {}, {})
      [] op = "copy" -> LET m == s.h[c[3]] IN IF m = 0 \/ s.node[m].k = "both" THEN {} ELSE One([s EXCEPT !.h[v] = m], "ok")
  ELSE IF n = 0 THEN {}
  ELSE LET k == s.node[n].k IN
  CASE op = "assign" -> LET m == s.h[c[3]] IN IF m = 0 \/ s.node[m].k # k \/ k = "both" \/ (m # n /\ ~MayEnd(s, v)) THEN {} ELSE One([End(s, v) EXCEPT !.h[v] = m, !.node[m] = s.node[m]], "ok")
    [] op = "end" -> IF MayEnd(s, v) THEN One(End(s, v), "ok") ELSE {}
    \* ending in another thread waits for as long as the slot is running, but it is disconnected right away
    [] op = "tend" -> IF s.run.on = 0 \/ s.dying # 0 THEN {} ELSE IF MayEnd(s, v) THEN One(End(s, v), "ok") ELSE IF n = s.run.n THEN {}
                      ELSE One([Disc(s, n) EXCEPT !.h[v] = 0, !.dying = n], "waits")
    [] op = "pub" -> IF k = "slot" THEN {} ELSE One([s EXCEPT !.node[n].pubs = @ \cup {Topic(c[3])}], "ok")
    [] op = "sub" -> One([s EXCEPT !.node[n].subs = @ \cup {Topic(c[3])}], "ok")
    [] op = "disc" -> One(Disc(s, n), "ok")
    [] op = "disc1" -> IF k # "both" THEN {} ELSE One([s EXCEPT !.node[n].pubs = @ \ {Topic(c[3])}, !.node[n].subs = @ \ {Topic(c[3])}], "ok")
    [] op = "conns" -> IF s.kind = 0 \/ k = "signal" THEN {} ELSE One(s, Sorted(s.node[n].subs))
    [] op \in {"emit", "temit"} ->
         IF k = "slot" \/ ~ActOk(s, s.act) \/ (op = "temit" /\ (s.run.on = 1)) THEN {}
         ELSE LET Os == Go(s, <<Frame(s, n, 0)>>, Zero, IF op = "temit" THEN 1 ELSE 0) IN
           IF \E o \in Os : o.e = "bad" \/ s.node[n].k = "-" THEN {}
           ELSE {IF o.e = "in" THEN [s |-> [o.s EXCEPT !.run = [on |-> 1, stk |-> o.stk, q |-> o.q, n |-> n, log |-> o.log]], r |-> "in:" \o Show(o.log)]
                 ELSE [s |-> o.s, r |-> Show(o.log) \o (IF o.e = "thrown" THEN "!thrown" ELSE "")] : o \in Os}
====
