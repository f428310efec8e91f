---- MODULE CharStrS ----
\* Converters between numbers and text.
EXTENDS NumText
\* dbg: failing conversions throw; otherwise they leave a sticky error.  e: that error per persistent converter
Init0 == [dbg |-> 1, e |-> [k \in {"is", "ic", "ci", "cu"} |-> ""]]
Fail(s, k, err) == IF s.dbg = 1 THEN One(s, err) ELSE One([s EXCEPT !.e[k] = err], "error:" \o err)
Good(s, k, v) == One(s, IF s.e[k] = "" THEN v ELSE v \o ":" \o s.e[k])
RECURSIVE Skip(_)
Skip(q) == IF q # <<>> /\ q[1] = " " THEN Skip(Tail(q)) ELSE q
\* "" if the characters do not spell an int, its text otherwise
IntOf(q0) ==
  LET q == Skip(q0)
      neg == q # <<>> /\ q[1] = "-"
      d == IF q # <<>> /\ q[1] \in {"-", "+"} THEN Tail(q) ELSE q
  IN IF d = <<>> \/ (\E i \in 1..Len(d) : ~IsDigit(d[i])) THEN ""
     ELSE LET t == Strip(d) IN
          IF ~NumLeq(t, Chars(IF neg THEN "2147483648" ELSE "2147483647")) THEN ""
          ELSE (IF neg /\ t # <<"0">> THEN "-" ELSE "") \o Glue(t)
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "mode" -> One([s EXCEPT !.dbg = c[2]], ToString(c[2]))
    \* <<num, type, way, size of the buffer, text>>: the text of the number, if it fits with its terminator
    [] op = "num" -> One(s, IF Len(c[5]) < c[4] THEN c[5] ELSE "NULL")
    \* <<flt, type, way, size, eighths, precision (-1: six)>>: cut off when it does not fit
    [] op = "flt" -> LET t == Fixed(c[5], IF c[6] < 0 THEN 6 ELSE Min2(c[6], 20)) IN
                     IF Len(t) <= c[4] - 2 THEN One(s, t) ELSE One(s, SubSeq(t, 1, c[4] - 2)) \cup One(s, SubSeq(t, 1, c[4] - 1))
    [] op = "bool" -> LET t == IF c[4] = 1 THEN "true" ELSE "false" IN One(s, IF Len(t) < c[3] THEN t ELSE "NULL")    \* <<bool, way, size, value>>
    [] op = "str" -> One(s, c[3])                                                                 \* <<str, way, text of an int>>
    [] op = "is" -> LET v == IntOf(c[3]) IN IF v = "" THEN Fail(s, "is", "Conversion") ELSE Good(s, "is", v)
    [] op = "ic" -> IF IsDigit(c[3]) THEN Good(s, "ic", c[3]) ELSE Fail(s, "ic", "Conversion")
    [] op = "ci" -> IF c[3] \in 0..9 THEN Good(s, "ci", ToString(c[3])) ELSE Fail(s, "ci", "OutOfRange")
    [] op = "cu" -> IF c[3] \in 0..9 THEN Good(s, "cu", ToString(c[3])) ELSE Fail(s, "cu", "Conversion")
    [] OTHER -> {}
====
