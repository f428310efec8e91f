---- MODULE MatFmtS ----
\* Formatters of matrices: row by row, each coefficient followed by two blanks, each row by a new line ("/" here) unless it is the only one.
\* Settings that come with a matrix hold for that output only.
EXTENDS NumText
Init0 == [p |-> 2, w |-> -1, tmp |-> <<>>, d |-> <<>>, rows |-> 1, ready |-> FALSE, dbg |-> 1]
Cell(x, p, w) == LET t == Fixed(x, p) IN Spaces(w - Len(t)) \o t \o "  "
RECURSIVE Row(_, _, _), Rows(_, _, _, _, _)
Row(q, p, w) == IF q = <<>> THEN "" ELSE Cell(q[1], p, w) \o Row(Tail(q), p, w)
Rows(q, n, all, p, w) == IF q = <<>> THEN "" ELSE Row(SubSeq(q, 1, n), p, w) \o (IF all = 1 THEN "" ELSE "/") \o Rows(SubSeq(q, n + 1, Len(q)), n, all, p, w)
\* rows and columns of the kinds; 0: any
Shape(k) == CASE k \in {0, 3} -> <<1, 3>> [] k = 1 -> <<3, 1>> [] k = 2 -> <<2, 2>> [] OTHER -> <<0, 0>>
Fits(k, r, q) == r > 0 /\ Len(q) > 0 /\ Len(q) % r = 0 /\ (Shape(k)[1] = 0 \/ Shape(k) = <<r, Len(q) \div r>>)
Step(s, c) ==
  LET op == c[1]
      P == IF s.tmp = <<>> THEN s.p ELSE s.tmp[1]
      W == IF s.tmp = <<>> THEN s.w ELSE s.tmp[2]
  IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], ToString(c[2]))
    [] op = "new" -> One([k |-> c[2]] @@ [Init0 EXCEPT !.p = c[3], !.w = c[4], !.dbg = s.dbg], "ok")       \* <<new, kind, precision, width>>
    [] "k" \notin DOMAIN s -> {}
    [] op = "copy" -> One(s, "ok")                                                                     \* carry on with a copy, the original ends
    [] op = "get" -> One(s, ToString(s.p) \o "," \o ToString(s.w))
    [] op = "prec" -> One([s EXCEPT !.p = c[2]], "ok")
    [] op = "width" -> One([s EXCEPT !.w = c[2]], "ok")
    [] op = "give" -> IF s.tmp # <<>> \/ ~Fits(s.k, c[2], c[3]) THEN {} ELSE One([s EXCEPT !.rows = c[2], !.d = c[3], !.ready = TRUE], "ok")     \* <<give, rows, eighths>>
    [] op = "givetmp" -> IF ~Fits(s.k, c[2], c[3]) THEN {} ELSE One([s EXCEPT !.rows = c[2], !.d = c[3], !.ready = TRUE, !.tmp = <<c[5], c[4]>>], "ok")   \* <<givetmp, rows, eighths, width, precision>>
    [] op = "out" -> IF ~s.ready THEN (IF s.dbg = 1 THEN One(s, "Usage") ELSE {}) ELSE One([s EXCEPT !.ready = FALSE, !.tmp = <<>>], Rows(s.d, Len(s.d) \div s.rows, s.rows, P, W))
    [] OTHER -> {}
====
