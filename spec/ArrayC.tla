---- MODULE ArrayC ----
\* ecl::Array<T,N> and ecl::Array<T>: value-semantic sequences with range-checked access.
\* el is the sequence of elements, Unk an element nothing was stored in yet; null says a dynamic array has no
\* storage; lo/hi say whether the guard bytes around the storage were overwritten (ECL_MEM_CHECK_ARRAYS build).
EXTENDS Util
Unk == -1
Blank == [kind |-> "none", el |-> <<>>, null |-> TRUE, lo |-> FALSE, hi |-> FALSE]
Init0 == [a |-> Blank, b |-> Blank]
Known(o) == \A i \in 1..Len(o.el) : o.el[i] # Unk
Fresh(kind, n, v) == [kind |-> kind, el |-> Rep(n, v), null |-> FALSE, lo |-> FALSE, hi |-> FALSE]
Sz(o) == ";n=" \o ToString(Len(o.el))
Throw == "throw:OutOfRange"
RECURSIVE Pr(_)
Pr(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o "_" \o Pr(Tail(q))
\* q written over the front of el
Over(el, q) == [i \in 1..Len(el) |-> IF i <= Len(q) THEN q[i] ELSE el[i]]

Step(s, c) ==
  LET o == s[c[2]]
      n == Len(o.el)
      Upd(p, ans) == One([s EXCEPT ![c[2]] = p], ans \o Sz(p))
      Same(ans) == Upd(o, ans)
      Get(i) == IF i >= n THEN Throw ELSE ToString(o.el[i + 1])
      Dyn == o.kind = "d"
  IN CASE c[1] = "new"    -> Upd(IF c[4] = 0 THEN [Blank EXCEPT !.kind = c[3]] ELSE Fresh(c[3], c[4], Unk), "ok")
       [] c[1] = "const"  -> Upd(Fresh(c[3], c[4], c[5]), "ok")                 \* from the Constant blueprint
       [] c[1] = "reconst" -> Upd(Fresh(o.kind, IF Dyn THEN c[3] ELSE n, c[4]), "ok")   \* assigned from it
       [] c[1] = "init"   -> \* a << v1, v2, ...
            IF Len(c[3]) > n THEN Upd([o EXCEPT !.el = Over(@, SubSeq(c[3], 1, n))], Throw)
            ELSE Upd([o EXCEPT !.el = Over(@, c[3])], "ok")
       [] c[1] = "at"     -> Same(Get(c[3]))
       [] c[1] = "idx"    -> Same(Get(c[3]))
       [] c[1] = "put"    -> IF c[3] >= n THEN Same(Throw) ELSE Upd([o EXCEPT !.el = [@ EXCEPT ![c[3] + 1] = c[4]]], "ok")
       [] c[1] = "front"  -> Same(IF n = 0 THEN Throw ELSE ToString(o.el[1]))
       [] c[1] = "back"   -> Same(IF n = 0 THEN Throw ELSE ToString(o.el[n]))
       [] c[1] = "iter"   -> Same(IF o.null THEN Throw ELSE JoinI(o.el))
       [] c[1] = "riter"  -> Same(IF o.null THEN Throw ELSE JoinI([i \in 1..n |-> o.el[n + 1 - i]]))
       [] c[1] = "print"  -> Same("[_" \o Pr(o.el) \o "]")
       [] c[1] = "resize" -> Upd(Fresh("d", c[3], Unk), "ok")                   \* contents are discarded
       [] c[1] = "clear"  -> Upd([Blank EXCEPT !.kind = "d"], "ok")
       [] c[1] = "assign" -> Upd([s[c[3]] EXCEPT !.lo = IF o.kind = "f" THEN s[c[3]].lo ELSE FALSE,
                                                 !.hi = IF o.kind = "f" THEN s[c[3]].hi ELSE FALSE], "ok")
       [] c[1] = "copy"   -> Upd([s[c[3]] EXCEPT !.lo = IF s[c[3]].kind = "f" THEN @ ELSE FALSE,
                                                 !.hi = IF s[c[3]].kind = "f" THEN @ ELSE FALSE], "ok")
       [] c[1] = "smash"  -> Upd([o EXCEPT !.lo = @ \/ c[3] = "lo", !.hi = @ \/ c[3] = "hi"], "ok")
       [] c[1] = "guard"  -> Same(B(o.lo) \o B(o.hi) \o B(o.lo \/ o.hi))

\* the two arrays never share storage: a command on one leaves the other's value alone
Isolated(s, c, t) == \A x \in {"a", "b"} : x # c[2] => t[x] = s[x]
====
