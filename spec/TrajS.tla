---- MODULE TrajS ----
\* Waypoints (joint angles, and rates, accelerations, nominal rates, a duration and a name) and trajectories interpolated through them. Values in thousandths.
EXTENDS NumText
NoW == [d |-> -1]
W0(d) == [d |-> d, a |-> Rep(d, 0), r |-> Rep(d, 0), hr |-> FALSE, c |-> Rep(d, 0), hc |-> FALSE, n |-> Rep(d, 1000), u |-> 0, m |-> ""]
NoT == [d |-> -1]
T0(d) == [d |-> d, w |-> <<>>, x |-> Rep(d, 0), k |-> ""]      \* k: how it was interpolated, if it was and nothing changed since
Init0 == [w |-> Rep(4, NoW), t |-> Rep(2, NoT), dbg |-> 1]
ShowW(w) == ToString(w.d) \o ":" \o w.m \o "|" \o ToString(w.u) \o "|" \o JoinI(w.a) \o "|" \o (IF w.hr THEN JoinI(w.r) ELSE "-") \o "|" \o (IF w.hc THEN JoinI(w.c) ELSE "-") \o "|" \o JoinI(w.n)
RECURSIVE Cols(_)
Cols(q) == IF q = <<>> THEN "" ELSE LET x == Fixed(TDiv(q[1], 125), 2) IN RepS("_", Max2(0, 6 - Len(x))) \o x \o "_" \o Cols(Tail(q))
Row(h, q) == "__" \o h \o RepS("_", 21 - Len(h)) \o ":_[_" \o Cols(q) \o "]$"
Text(w) == (IF w.m = "" THEN "" ELSE "__Name_________________:_" \o w.m \o "$") \o Row("Angles", w.a) \o (IF w.hr THEN Row("Rates", w.r) ELSE "") \o (IF w.hc THEN Row("Accelerations", w.c) ELSE "") \o Row("Nominal_Rates", w.n)
Eighths(w) == \A q \in {w.a, w.r, w.c, w.n} : \A i \in 1..Len(q) : q[i] % 125 = 0
Same(a, b, e) == \A i \in 1..a.d : Abs(a.a[i] - b.a[i]) <= e
Conf == "throw:Configuration"
\* may it be interpolated, and what stands against it?
Fault(t, least) == \/ Len(t.w) < least
                   \/ \E i \in 1..(Len(t.w) - 1) : \E j \in 1..t.d : t.w[i].n[j] <= 0
                   \/ \E i \in 1..(Len(t.w) - 1) : t.w[i].u = 0 /\ t.w[i].a = t.w[i + 1].a
Able(t) == t.d > 0 /\ \A j \in 1..t.d : t.x[j] > 0
SetW(s, i, w) == One([s EXCEPT !.w[i + 1] = w], "ok")
SetT(s, i, t) == One([s EXCEPT !.t[i + 1] = t], "ok")
Step(s, c) ==
  LET op == c[1] IN
  IF op = "mode" THEN One([s EXCEPT !.dbg = c[2]], "ok")
  ELSE IF op = "w" THEN SetW(s, c[2], W0(Max2(c[3], 0)))                     \* <<w, which, dimension or -1>>
  ELSE IF op = "t" THEN SetT(s, c[2], T0(Max2(c[3], 0)))
  ELSE IF op \in {"wcopy", "wassign", "wdim", "angles", "rates", "accs", "noms", "nom", "dur", "name", "wshow", "cmp", "wtext"} THEN
    LET i == c[2]  w == s.w[i + 1] IN
    IF op = "wcopy" THEN (IF s.w[c[3] + 1].d < 0 THEN {} ELSE SetW(s, i, s.w[c[3] + 1]))
    ELSE IF w.d < 0 THEN {}
    ELSE CASE op = "wassign" -> IF s.w[c[3] + 1].d < 0 THEN {} ELSE SetW(s, i, s.w[c[3] + 1])
           [] op = "wdim" -> SetW(s, i, [w EXCEPT !.d = c[3], !.a = Rep(c[3], 0), !.r = Rep(c[3], 0), !.c = Rep(c[3], 0), !.n = Rep(c[3], 0)])
           [] op \in {"angles", "rates", "accs", "noms"} /\ Len(c[3]) # w.d -> {}
           [] op = "angles" -> SetW(s, i, [w EXCEPT !.a = c[3]])
           [] op = "rates" -> SetW(s, i, [w EXCEPT !.r = c[3], !.hr = TRUE])
           [] op = "accs" -> SetW(s, i, [w EXCEPT !.c = c[3], !.hc = TRUE])
           [] op = "noms" -> SetW(s, i, [w EXCEPT !.n = c[3]])
           [] op = "nom" -> SetW(s, i, [w EXCEPT !.n = Rep(w.d, c[3])])
           [] op = "dur" -> SetW(s, i, [w EXCEPT !.u = c[3]])
           [] op = "name" -> SetW(s, i, [w EXCEPT !.m = c[3]])
           [] op = "wshow" -> One(s, ShowW(w))
           [] op = "wtext" -> IF w.d > 0 /\ Eighths(w) THEN One(s, Text(w)) ELSE {}
           [] op = "cmp" -> LET v == s.w[c[3] + 1] IN                        \* <<cmp, one, other, thousandths>>
                            IF v.d # w.d THEN {} ELSE LET e == w.a = v.a IN One(s, (IF e THEN "=-" ELSE "-#") \o (IF Same(w, v, 9) THEN "~" ELSE "-") \o (IF Same(w, v, c[4]) THEN "~" ELSE "-"))
  ELSE
    LET i == c[2]  t == s.t[i + 1] IN
    IF t.d < 0 THEN {}
    ELSE CASE op = "tdim" -> SetT(s, i, T0(c[3]))
           [] op = "clear" -> SetT(s, i, [t EXCEPT !.w = <<>>, !.k = ""])
           [] op = "append" -> LET w == s.w[c[3] + 1] IN IF w.d < 0 THEN {} ELSE IF w.d = t.d THEN SetT(s, i, [t EXCEPT !.w = Append(t.w, w), !.k = ""]) ELSE IF s.dbg = 1 THEN One(s, "throw:InvalidInput") ELSE {}
           [] op = "acc" -> SetT(s, i, [t EXCEPT !.x = Rep(t.d, c[3]), !.k = ""])
           [] op = "accj" -> IF Len(c[3]) = t.d THEN SetT(s, i, [t EXCEPT !.x = c[3], !.k = ""]) ELSE {}
           [] op = "tshow" -> One(s, ToString(t.d) \o ":" \o ToString(Len(t.w)) \o ":" \o JoinI(t.x))
           [] op = "at" -> IF c[3] < Len(t.w) THEN One(s, JoinI(t.w[c[3] + 1].a)) ELSE IF s.dbg = 1 THEN One(s, "throw:OutOfRange") ELSE {}
           [] op = "last" -> IF t.w = <<>> THEN {} ELSE One(s, JoinI(t.w[Len(t.w)].a))
           [] op \in {"linear", "tension"} -> IF ~Able(t) THEN {} ELSE IF Fault(t, IF op = "linear" THEN 2 ELSE 5) THEN (IF s.dbg = 1 THEN One([s EXCEPT !.t[i + 1].k = ""], Conf) ELSE {}) ELSE SetT(s, i, [t EXCEPT !.k = op])
           \* it starts and ends where, and as fast as, it should, without jumps, not exceeding the accelerations, nor the nominal rates on the way; splines in tension meet all waypoints
           [] op = "facts" -> IF t.k = "" THEN {} ELSE One(s, "good")
           [] op = "outside" -> IF t.k = "" \/ s.dbg = 0 THEN {} ELSE One(s, "rrrrrr")
           [] OTHER -> {}
====
