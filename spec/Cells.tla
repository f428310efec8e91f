---- MODULE Cells ----
\* ecl::Parameter<T> (a cell holding a copy) and ecl::ReferenceWrapper<T> (an alias, never a copy).
\* x: plain variables, p: parameters, r: for each wrapper the variable it designates (0 = none).
EXTENDS Util
Init0 == [x |-> <<0, 0, 0>>, p |-> <<0, 0>>, r |-> <<0, 0>>]
Ans(s) == ";" \o JoinI(s.x) \o ";" \o JoinI(s.p)
Step(s, c) ==
  LET Ret(t, a) == One(t, a \o Ans(t))
      i == c[2]
  IN CASE c[1] = "var"     -> Ret([s EXCEPT !.x = [@ EXCEPT ![i] = c[3]]], "ok")
       [] c[1] = "pset"    -> Ret([s EXCEPT !.p = [@ EXCEPT ![i] = s.x[c[3]]]], "ok")     \* p = x
       [] c[1] = "pcall"   -> Ret([s EXCEPT !.p = [@ EXCEPT ![i] = s.x[c[3]]]], "ok")     \* p(x)
       [] c[1] = "pctor"   -> Ret([s EXCEPT !.p = [@ EXCEPT ![i] = s.x[c[3]]]], "ok")
       [] c[1] = "pdef"    -> Ret([s EXCEPT !.p = [@ EXCEPT ![i] = 0]], "ok")             \* value-initialised
       [] c[1] = "pcopy"   -> Ret([s EXCEPT !.p = [@ EXCEPT ![i] = s.p[c[3]]]], "ok")
       [] c[1] = "pget"    -> Ret(s, ToString(s.p[i]))
       [] c[1] = "pconv"   -> Ret([s EXCEPT !.x = [@ EXCEPT ![c[3]] = s.p[i]]], "ok")     \* x = p
       [] c[1] = "ref"     -> Ret([s EXCEPT !.r = [@ EXCEPT ![i] = c[3]]], "ok")
       [] c[1] = "rcopy"   -> Ret([s EXCEPT !.r = [@ EXCEPT ![i] = s.r[c[3]]]], "ok")
       [] c[1] = "rget"    -> Ret(s, ToString(s.x[s.r[i]]))
       [] c[1] = "rset"    -> Ret([s EXCEPT !.x = [@ EXCEPT ![s.r[i]] = c[3]]], "ok")
       [] c[1] = "rpset"   -> Ret([s EXCEPT !.x = [@ EXCEPT ![s.r[i]] = c[3]]], "ok")     \* through pointer()
       [] c[1] = "rpass"   -> Ret([s EXCEPT !.x = [@ EXCEPT ![s.r[i]] = @ + 1]], "ok")    \* handed to a function taking T&
       [] c[1] = "raddr"   -> Ret(s, ToString(s.r[i]))                                    \* whose address it holds
       [] c[1] = "cref"    -> Ret(s, ToString(s.x[c[3]]))
       [] c[1] = "traits"  -> Ret(s, "0110")
\* a parameter never changes because a variable did
====
