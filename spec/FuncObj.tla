---- MODULE FuncObj ----
\* ecl's function objects.  g: effect of the free functions; m: state of the two class objects; fs: state of the
\* client's functor; slots hold function objects: what they call, with which object and which captured argument.
\* Calling a slot calls its target exactly once with the bound and the given arguments, on the bound object itself
\* (never on a copy of it) -- except that a *Copy slot owns a copy of the functor, taken when it was built.
EXTENDS Util
Free == [k |-> "none", o |-> 0, a |-> 0, n |-> 0]
Init0 == [g |-> 0, m |-> <<0, 0>>, fs |-> 0, slot |-> <<Free, Free>>]
Ans(s) == ";" \o ToString(s.g) \o ";" \o JoinI(s.m) \o ";" \o ToString(s.fs)
Nullary == {"nf", "buf", "bnm", "bum", "ncopy", "nref"}
\* <<make, slot, kind, object, argument>>; kinds ending in "v" build the void-returning variant of the same object
Base(kd) == CASE kd \in {"nf", "nfv"} -> "nf" [] kd \in {"uf", "ufv"} -> "uf" [] kd \in {"buf", "bufv"} -> "buf"
   [] kd \in {"nm", "nmv"} -> "nm" [] kd \in {"um", "umv"} -> "um" [] kd \in {"bnm", "bnmv"} -> "bnm"
   [] kd \in {"pbu", "pbuv"} -> "pbu" [] kd \in {"bum", "bumv"} -> "bum" [] kd \in {"pbb", "pbbv"} -> "pbb"
   [] kd \in {"ncopy", "ncopyv"} -> "ncopy" [] kd \in {"nref", "nrefv"} -> "nref"
   [] kd \in {"ucopy", "ucopyv"} -> "ucopy" [] kd \in {"uref", "urefv"} -> "uref"
Void(kd) == kd \in {"nfv", "ufv", "bufv", "nmv", "umv", "bnmv", "pbuv", "bumv", "pbbv", "ncopyv", "nrefv", "ucopyv", "urefv"}
Mod == 1000003
Mix(x, a) == (x * 3 + a) % Mod
Step(s, c) ==
  LET Ret(t, a) == One(t, a \o Ans(t))
      sl == s.slot[c[2]]
      kd == Base(sl.k)
      \* arguments of a call: <<call, slot, object, a, b>>
      co == c[3] ca == c[4] cb == c[5]
      Val(v) == IF Void(sl.k) THEN "void" ELSE ToString(v)
      OnG(a) == LET v == Mix(s.g, a) IN Ret([s EXCEPT !.g = v], Val(v))
      OnM(o, a) == LET v == Mix(s.m[o], a) IN Ret([s EXCEPT !.m = [@ EXCEPT ![o] = v]], Val(v))
      OnF(a) == LET v == Mix(s.fs, a) IN Ret([s EXCEPT !.fs = v], Val(v))
      OnCopy(a) == LET v == Mix(sl.n, a) IN Ret([s EXCEPT !.slot = [@ EXCEPT ![c[2]] = [sl EXCEPT !.n = v]]], Val(v))
  IN CASE c[1] = "make" -> Ret([s EXCEPT !.slot = [@ EXCEPT ![c[2]] = [k |-> c[3], o |-> c[4], a |-> c[5], n |-> s.fs]]], "ok")
       [] c[1] = "setg" -> Ret([s EXCEPT !.g = c[2]], "ok")
       [] c[1] = "setm" -> Ret([s EXCEPT !.m = [@ EXCEPT ![c[2]] = c[3]]], "ok")
       [] c[1] = "setf" -> Ret([s EXCEPT !.fs = c[2]], "ok")
       [] c[1] = "call" -> CASE kd = "nf" -> OnG(1)
            [] kd = "uf" -> OnG(ca)
            [] kd = "buf" -> OnG(sl.a)
            [] kd = "nm" -> OnM(co, 1)
            [] kd = "um" -> OnM(co, ca)
            [] kd = "bnm" -> OnM(sl.o, 1)
            [] kd = "pbu" -> OnM(sl.o, ca)
            [] kd = "bum" -> OnM(sl.o, sl.a)
            [] kd = "pbb" -> OnM(sl.o, 10 * ca + cb)
            [] kd = "nref" -> OnF(1)
            [] kd = "uref" -> OnF(ca)
            [] kd = "ncopy" -> OnCopy(1)
            [] kd = "ucopy" -> OnCopy(ca)
====
