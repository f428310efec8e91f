---- MODULE ContFmtS ----
\* Formatters of containers: floats in columns, bytes in hex.
EXTENDS NumText
Init0 == [p |-> 2, w |-> -1, tmp |-> <<>>, d |-> <<>>, ready |-> FALSE, dbg |-> 1]
\* digits in front of the point: the least n with |x| + 1 <= 10^n, x in eighths
RECURSIVE Front(_, _)
Front(m, n) == IF m + 8 <= 8 * 10^n THEN n ELSE Front(m, n + 1)
MaxS(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= x
MinS(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] >= x
\* the width that fits every coefficient
Auto(q, p) == LET lo == MinS(q)  hi == MaxS(q) IN Max2(1, Max2(Front(Abs(lo), 0), Front(Abs(hi), 0))) + (IF lo < 0 THEN 1 ELSE 0) + 1 + p
RightA(x, w) == Spaces(w - Len(x)) \o x
RECURSIVE Cols(_, _, _)
Cols(q, p, w) == IF q = <<>> THEN "" ELSE RightA(Fixed(q[1], p), w) \o " " \o Cols(Tail(q), p, w)
Show(q, p, w) == "[ " \o (IF q = <<>> THEN "" ELSE Cols(q, p, IF w = -1 THEN Auto(q, p) ELSE w)) \o "]"
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexB(_)
HexB(q) == IF q = <<>> THEN "" ELSE "0x" \o HexD[(q[1] \div 16) + 1] \o HexD[(q[1] % 16) + 1] \o " " \o HexB(Tail(q))
Step(s, c) ==
  LET op == c[1]
      P == IF s.tmp = <<>> THEN s.p ELSE s.tmp[1]
      W == IF s.tmp = <<>> THEN s.w ELSE s.tmp[2]
  IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], ToString(c[2]))
    [] op = "new" -> One([Init0 EXCEPT !.p = c[3], !.w = c[4], !.dbg = s.dbg], "ok")                    \* <<new, kind, precision, width>>
    [] op = "copy" -> One(s, "ok")                                                                  \* carry on with a copy, the original ends
    [] op = "getp" -> One(s, ToString(P))
    [] op \in {"prec", "width", "set"} /\ s.tmp # <<>> -> {}
    [] op = "prec" -> One([s EXCEPT !.p = c[2]], "ok")
    [] op = "width" -> One([s EXCEPT !.w = c[2]], "ok")
    [] op = "set" -> One([s EXCEPT !.p = c[2], !.w = c[3]], "ok")
    [] op = "give" -> One([s EXCEPT !.d = c[2], !.ready = TRUE], "ok")                                   \* <<give, eighths>>
    [] op = "givetmp" -> One([s EXCEPT !.d = c[2], !.ready = TRUE, !.tmp = <<c[3], c[4]>>], "ok")          \* <<givetmp, eighths, precision, width>>
    [] op = "out" -> IF ~s.ready THEN (IF s.dbg = 1 THEN One(s, "Usage") ELSE {}) ELSE One([s EXCEPT !.ready = FALSE, !.tmp = <<>>], Show(s.d, P, W))
    [] op = "bytes" -> One(s, "[ " \o HexB(SubSeq(c[3], c[4] + 1, c[4] + c[5])) \o "]")                     \* <<bytes, kind, bytes, first, number>>
    [] OTHER -> {}
====
