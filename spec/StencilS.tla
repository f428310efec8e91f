---- MODULE StencilS ----
\* ecl::Stencil: windows [lo, lo+n) onto arrays.  Two arrays and up to three windows w[1..3]; a window holds no
\* elements of its own, so what is written through one is seen through the array and every other window.
EXTENDS Util
Gone == [on |-> "none", lo |-> 0, n |-> 0]
Init0 == [kind |-> "none", arr |-> [a |-> <<>>, b |-> <<>>], w |-> <<Gone, Gone, Gone>>]
Throw == "throw:OutOfRange"
Arr(s, w) == s.arr[w.on]
Elems(s, w) == SubSeq(Arr(s, w), w.lo + 1, w.lo + w.n)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Pr(_)
Pr(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o "_" \o Pr(Tail(q))
\* the whole observable state
View(s) == ";a=" \o JoinI(s.arr.a) \o ";b=" \o JoinI(s.arr.b)
WindowsInside(s) == \A i \in 1..3 : LET w == s.w[i] IN
   w.on # "none" => w.lo >= 0 /\ w.n >= 0 /\ w.lo + w.n <= Len(Arr(s, w))
Put(s, x, i, v) == [s EXCEPT !.arr = [@ EXCEPT ![x] = [@ EXCEPT ![i + 1] = v]]]
RECURSIVE PutAll(_, _, _, _)
PutAll(s, x, i, q) == IF q = <<>> THEN s ELSE PutAll(Put(s, x, i, q[1]), x, i + 1, Tail(q))

Step(s, c) ==
  LET Ret(t, ans) == One(t, ans \o View(t))
      w == s.w[c[2]]
      SetW(i, nw) == [s EXCEPT !.w = [@ EXCEPT ![i] = nw]]
  IN CASE c[1] = "make" -> Ret([Init0 EXCEPT !.kind = c[2], !.arr = [a |-> c[3], b |-> c[4]]], "ok")
       [] c[1] = "open" ->   \* <<open, i, array, start, n>> : array.stencil(start, n)
            LET len == Len(s.arr[c[3]]) IN
            IF c[4] < len /\ c[4] + c[5] <= len THEN Ret(SetW(c[2], [on |-> c[3], lo |-> c[4], n |-> c[5]]), "ok")
            ELSE Ret(s, Throw)
       [] c[1] = "ctor" ->   \* <<ctor, i, array, start, n>> : Stencil(array, start, n); start = length gives an empty window
            IF c[4] + c[5] <= Len(s.arr[c[3]]) THEN Ret(SetW(c[2], [on |-> c[3], lo |-> c[4], n |-> c[5]]), "ok")
            ELSE Ret(s, Throw)
       [] c[1] = "sub" ->    \* <<sub, i, j, start, n>> : w[j] = w[i].stencil(start, n)
            LET len == Len(Arr(s, w)) IN
            IF w.lo + c[4] < len /\ w.lo + c[4] + c[5] <= len THEN Ret(SetW(c[3], [on |-> w.on, lo |-> w.lo + c[4], n |-> c[5]]), "ok")
            ELSE Ret(s, Throw)
       [] c[1] = "settle" -> \* <<settle, i, start, n>> relative to the array; a refused window is dropped
            IF c[3] + c[4] <= Len(Arr(s, w)) THEN Ret(SetW(c[2], [w EXCEPT !.lo = c[3], !.n = c[4]]), "ok")
            ELSE Ret(SetW(c[2], Gone), Throw)
       [] c[1] = "size" -> Ret(s, ToString(w.n))
       [] c[1] = "at"   -> IF w.lo + c[3] >= Len(Arr(s, w)) THEN Ret(s, Throw) ELSE Ret(s, ToString(Arr(s, w)[w.lo + c[3] + 1]))
       [] c[1] = "idx"  -> IF w.lo + c[3] >= Len(Arr(s, w)) THEN Ret(s, Throw) ELSE Ret(s, ToString(Arr(s, w)[w.lo + c[3] + 1]))
       [] c[1] = "put"  -> Ret(Put(s, w.on, w.lo + c[3], c[4]), "ok")
       [] c[1] = "iter" -> Ret(s, JoinI(Elems(s, w)))
       [] c[1] = "riter" -> Ret(s, JoinI(Rev(Elems(s, w))))
       [] c[1] = "front" -> Ret(s, ToString(Elems(s, w)[1]))
       [] c[1] = "back" -> Ret(s, ToString(Elems(s, w)[w.n]))
       [] c[1] = "print" -> Ret(s, "[_" \o Pr(Elems(s, w)) \o "]")
       [] c[1] = "init" ->   \* w << v1, v2, ...: never writes outside the window
            IF Len(c[3]) > w.n THEN Ret(PutAll(s, w.on, w.lo, SubSeq(c[3], 1, w.n)), Throw)
            ELSE Ret(PutAll(s, w.on, w.lo, c[3]), "ok")
       [] c[1] = "let" ->    \* <<let, i, j>> : w[i] = w[j]; over one array it resettles, over two it copies elements
            LET v == s.w[c[3]] IN
            IF v.on = w.on \/ s.kind \in {"u", "c"} THEN Ret(SetW(c[2], v), "ok")
            ELSE IF v.n > w.n THEN Ret(s, Throw)
            ELSE Ret(PutAll(s, w.on, w.lo, Elems(s, v)), "ok")
====
