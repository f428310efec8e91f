---- MODULE SingletonS ----
\* ecl::Singleton<T>: the first access (from whichever thread or translation unit) constructs the one instance of
\* T; every access yields that instance.  made: constructions of each type so far; val: the instance's content.
EXTENDS Util
Types == 1..3
Init0 == [made |-> <<0, 0, 0>>, val |-> <<0, 0, 0>>]
Touch(s, t) == IF s.made[t] = 0 THEN [s EXCEPT !.made = [@ EXCEPT ![t] = 1], !.val = [@ EXCEPT ![t] = 7]] ELSE s
Ans(s) == ";" \o JoinI(s.made)
AtMostOne(s) == \A t \in Types : s.made[t] <= 1
Step(s, c) ==
  LET t == c[2] u == Touch(s, t) IN
  CASE c[1] = "get"   -> One(u, ToString(u.val[t]) \o Ans(u))
    [] c[1] = "other" -> One(u, ToString(u.val[t]) \o Ans(u))      \* from another translation unit
    [] c[1] = "set"   -> LET w == [u EXCEPT !.val = [@ EXCEPT ![t] = c[3]]] IN One(w, "ok" \o Ans(w))
    [] c[1] = "race"  -> One(u, "same" \o Ans(u))                   \* n threads at once, all get the same object
====
