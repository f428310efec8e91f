---- MODULE FormatS ----
\* Formatters for integers, floats and strings: permanent settings, settings for the next output only, and what is printed.
EXTENDS NumText
NoA == 0  LeftA == 1  RightA == 2  CentreA == 3
Bin == 0  Hex == 1  Dec == 2
\* kinds: short int long char(signed) schar ushort uint ulong uchar | float double | string
Size == <<2, 4, 8, 1, 1, 2, 4, 8, 1>>
Signed(k) == k < 5
Set0 == [w |-> -1, a |-> NoA, b |-> Dec, p |-> 4]
\* slots hold formatters; -1: none
None == [k |-> -1]
Init0 == [f |-> <<None, None, None>>, dbg |-> 1]
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
\* ---- decimal digits, lowest first
RECURSIVE MulAdd(_, _, _)
MulAdd(d, m, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, m, c \div 10))
                   ELSE LET x == (d[1] * m) + c IN <<x % 10>> \o MulAdd(Tail(d), m, x \div 10)
RECURSIVE DecOf(_, _)
DecOf(q, d) == IF q = <<>> THEN d ELSE DecOf(Tail(q), MulAdd(d, 16, q[1]))
RECURSIVE TextD(_)
TextD(d) == IF d = <<>> THEN "" ELSE TextD(Tail(d)) \o ToString(d[1])
DText(d) == IF d = <<>> THEN "0" ELSE TextD(d)
\* two's complement of nibbles, highest first
RECURSIVE AddOne(_)
AddOne(q) == IF q = <<>> THEN <<>> ELSE IF q[Len(q)] = 15 THEN AddOne(SubSeq(q, 1, Len(q) - 1)) \o <<0>> ELSE SubSeq(q, 1, Len(q) - 1) \o <<q[Len(q)] + 1>>
Negate(q) == AddOne([i \in 1..Len(q) |-> 15 - q[i]])
DecText(k, q) == IF Signed(k) /\ q[1] >= 8 THEN "-" \o DText(DecOf(Negate(q), <<>>)) ELSE DText(DecOf(q, <<>>))
BinN(n) == Ch("01", 1 + (n \div 8)) \o Ch("01", 1 + ((n \div 4) % 2)) \o Ch("01", 1 + ((n \div 2) % 2)) \o Ch("01", 1 + (n % 2))
RECURSIVE HexT(_), BinT(_)
HexT(q) == IF q = <<>> THEN "" ELSE HexD[q[1] + 1] \o HexT(Tail(q))
BinT(q) == IF q = <<>> THEN "" ELSE BinN(q[1]) \o BinT(Tail(q))
RECURSIVE Shift(_, _)
Shift(d, e) == IF e = 0 THEN d ELSE IF e >= 8 THEN Shift(MulAdd(d, 256, 0), e - 8) ELSE Shift(MulAdd(d, 2, 0), e - 1)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o DigitsOf(n \div 10)
\* ---- what a value looks like under a setting
IntText(k, q, b) == CASE b = Bin -> "0b" \o BinT(q) [] b = Hex -> "0x" \o HexT(q) [] OTHER -> DecText(k, q)
\* value of a float: <<n, e>>: n eighths if e = 0, n * 2^e otherwise
FltText(v, p0) == LET p == Min2(p0, 20) IN
                  IF v[2] = 0 THEN Fixed(v[1], p)
                  ELSE (IF v[1] < 0 THEN "-" ELSE "") \o DText(Shift(DigitsOf(Abs(v[1])), v[2])) \o (IF p = 0 THEN "" ELSE "." \o Zeros(p))
Plain(k, v, t) == IF k < 9 THEN IntText(k, v, t.b) ELSE IF k < 11 THEN FltText(v, t.p) ELSE v
Padded(x, w, a) ==
  LET n == w - Len(x) IN
  IF n <= 0 THEN x
  ELSE CASE a = LeftA -> x \o Spaces(n) [] a = RightA -> Spaces(n) \o x [] a = CentreA -> Spaces((n + 1) \div 2) \o x \o Spaces(n \div 2) [] OTHER -> x
\* ---- settings
IsNum(k) == k < 11
Width(k, t, w) == [t EXCEPT !.w = w, !.a = IF IsNum(k) /\ w > 0 /\ t.a = NoA THEN RightA ELSE t.a]
Align(k, t, a) == [t EXCEPT !.a = a, !.w = IF IsNum(k) /\ a = NoA THEN 0 ELSE t.w]
Cur(f) == IF f.tmp THEN f.t ELSE f.s
SetCur(f, t) == IF f.tmp THEN [f EXCEPT !.t = t] ELSE [f EXCEPT !.s = t]
Give(f, v) == [f EXCEPT !.v = v, !.ready = TRUE]
Text(s, f) == IF ~f.ready THEN (IF s.dbg = 1 THEN "Usage" ELSE "[]") ELSE "[" \o Padded(Plain(f.k, f.v, Cur(f)), Cur(f).w, Cur(f).a) \o "]"
Given(f) == IF f.ready THEN [f EXCEPT !.ready = FALSE, !.tmp = FALSE] ELSE f
Step(s, c) ==
  LET op == c[1] IN
  IF op = "mode" THEN One([s EXCEPT !.dbg = c[2]], ToString(c[2]))
  ELSE
  LET i == c[2] + 1
      f == s.f[i]
      Put(g) == One([s EXCEPT !.f[i] = g], "ok")
  IN
  CASE op = "new" -> \* <<new, slot, kind, width, alignment, base, precision>>
         Put([k |-> c[3], s |-> [w |-> c[4], a |-> c[5], b |-> c[6], p |-> c[7]], t |-> Set0, tmp |-> FALSE, v |-> <<>>, ready |-> FALSE])
    [] op = "copy" -> IF s.f[c[3] + 1].k < 0 THEN {} ELSE Put(s.f[c[3] + 1])                        \* <<copy, slot, from>>: build a copy
    [] op = "assign" -> IF f.k < 0 \/ s.f[c[3] + 1].k # f.k THEN {} ELSE Put(s.f[c[3] + 1])          \* <<assign, slot, from>>
    [] op = "end" -> Put(None)                                                                   \* the formatter ends
    [] f.k < 0 -> {}
    [] op = "width" -> IF f.k = 11 /\ f.tmp THEN {} ELSE Put(SetCur(f, Width(f.k, Cur(f), c[3])))
    [] op = "align" -> IF f.k = 11 /\ f.tmp THEN {} ELSE Put(SetCur(f, Align(f.k, Cur(f), c[3])))
    [] op = "base" -> IF f.k >= 9 THEN {} ELSE Put(SetCur(f, [Cur(f) EXCEPT !.b = c[3]]))
    [] op = "prec" -> IF f.k \notin {9, 10} THEN {} ELSE Put(SetCur(f, [Cur(f) EXCEPT !.p = c[3]]))
    [] op = "get" -> IF f.k \notin {9, 10} THEN {} ELSE One(s, JoinI(<<Cur(f).p, Cur(f).w>>))
    \* all settings at once: <<set, slot, width, alignment, base, precision>>; <<set2, slot, precision, width>> for floats
    [] op = "set" -> IF f.k = 11 /\ f.tmp THEN {} ELSE LET t == Align(f.k, Width(f.k, Cur(f), c[3]), c[4]) IN Put(SetCur(f, IF f.k < 9 THEN [t EXCEPT !.b = c[5]] ELSE IF f.k < 11 THEN [t EXCEPT !.p = c[6]] ELSE t))
    [] op = "set2" -> IF f.k \notin {9, 10} THEN {} ELSE Put(SetCur(f, [Width(f.k, Cur(f), c[4]) EXCEPT !.p = c[3]]))
    \* a value under the current settings
    [] op = "val" -> IF f.k = 11 /\ f.tmp THEN {} ELSE Put(Give(f, c[3]))
    \* a value under settings for the next output only: the others stay the permanent ones
    [] op = "tmp" -> \* <<tmp, slot, value, width, base, precision>>
         LET t == [Width(f.k, f.s, c[4]) EXCEPT !.b = IF f.k < 9 THEN c[5] ELSE f.s.b, !.p = IF f.k \in {9, 10} THEN c[6] ELSE f.s.p] IN
         Put([Give(f, c[3]) EXCEPT !.tmp = TRUE, !.t = t])
    [] op = "tmpall" -> \* <<tmpall, slot, value, width, alignment, base, precision>>
         LET t == Align(f.k, [f.s EXCEPT !.w = c[4], !.b = c[6], !.p = c[7]], c[5]) IN
         Put([Give(f, c[3]) EXCEPT !.tmp = TRUE, !.t = t])
    [] op = "out" -> One([s EXCEPT !.f[i] = Given(f)], Text(s, f))
    \* <<both, slot, other>>: while one is printed, another thread prints another one
    [] op = "both" -> LET j == c[3] + 1  g == s.f[j] IN
                      IF i = j \/ g.k < 0 THEN {} ELSE One([s EXCEPT !.f[i] = Given(f), !.f[j] = Given(g)], Text(s, f) \o " " \o Text(s, g))
    [] OTHER -> {}
====
