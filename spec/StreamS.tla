---- MODULE StreamS ----
\* Text streams over a device that holds characters (and may fail to read or write).
EXTENDS NumText
\* buf: the characters written; rd: how many were read; bad: reading this character fails (0: none); raw: blanks are read too;
\* full: writing fails; shut: the device is not open (development builds refuse to use it); err: state of the last operation; fl: flushes of the device
Init0 == [buf |-> <<>>, rd |-> 0, bad |-> 0, raw |-> 0, full |-> 0, shut |-> 0, err |-> "", fl |-> 0]
Types == <<"short", "int", "long", "llong", "uchar", "ushort", "uint", "ulong", "ullong">>
MaxT == <<"32767", "2147483647", "9223372036854775807", "9223372036854775807", "255", "65535", "4294967295", "18446744073709551615", "18446744073709551615">>
MinT == <<"32768", "2147483648", "9223372036854775808", "9223372036854775808", "0", "0", "0", "0", "0">>
Get(s, p) == IF p = s.bad THEN "ERR" ELSE IF p > Len(s.buf) THEN "END" ELSE s.buf[p]
\* text on one line
RECURSIVE Esc(_)
Esc(q) == IF q = <<>> THEN "" ELSE (IF q[1] = "\n" THEN "\\n" ELSE q[1]) \o Esc(Tail(q))
Blank(c) == c = " " \/ c = "\n"
Stop(c) == c = "ERR" \/ c = "END"
Past(s, p) == IF Stop(Get(s, p)) THEN p - 1 ELSE p                       \* characters consumed once p was tried
RECURSIVE Skip(_, _), Run(_, _, _), Word(_, _)
Skip(s, p) == IF Blank(Get(s, p)) THEN Skip(s, p + 1) ELSE p
Run(s, p, D) == IF Get(s, p) \in D THEN Run(s, p + 1, D) ELSE p
Word(s, p) == IF Stop(Get(s, p)) \/ Blank(Get(s, p)) THEN p ELSE Word(s, p + 1)
Dec == DOMAIN DigitVal
HexVal == [c \in Dec \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |-> IF c \in Dec THEN DigitVal[c] ELSE CASE c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12 [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] OTHER -> 15]
HexC == DOMAIN HexVal
\* ---- decimal digits (lowest first) of hex digits
RECURSIVE MulAdd(_, _, _), DecOf(_, _), TextD(_)
MulAdd(d, m, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, m, c \div 10)) ELSE LET x == (d[1] * m) + c IN <<x % 10>> \o MulAdd(Tail(d), m, x \div 10)
DecOf(q, d) == IF q = <<>> THEN d ELSE DecOf(Tail(q), MulAdd(d, 16, HexVal[q[1]]))
TextD(d) == IF d = <<>> THEN "" ELSE TextD(Tail(d)) \o ToString(d[1])
Ok(n, v) == [n |-> n, e |-> "", v |-> v]
Bad(n, e) == [n |-> n, e |-> e, v |-> ""]
Number(digits, neg, t, n) ==
  LET d == Strip(digits) IN
  IF ~NumLeq(d, Chars(IF neg THEN MinT[t] ELSE MaxT[t])) THEN Bad(n, "OutOfRange")
  ELSE Ok(n, (IF neg /\ d # <<"0">> THEN "-" ELSE "") \o Glue(d))
\* digits from p on
Digits(s, p, neg, t) ==
  LET e == Run(s, p, Dec) IN
  IF e = p THEN Bad(Past(s, p), IF Stop(Get(s, p)) THEN "Read" ELSE "Conversion")
  ELSE IF Get(s, e) = "ERR" THEN Bad(e - 1, "Read")
  ELSE Number(SubSeq(s.buf, p, e - 1), neg, t, Past(s, e))
Hex(s, p, t) ==
  LET e == Run(s, p, HexC) IN
  IF Get(s, e) = "ERR" THEN {Bad(e - 1, "Read")}
  ELSE IF e = p THEN {Bad(Past(s, p), "Read"), Bad(Past(s, p), "Conversion")}
  ELSE LET d == TextD(DecOf(SubSeq(s.buf, p, e - 1), <<>>)) IN {Number(Chars(IF d = "" THEN "0" ELSE d), FALSE, t, Past(s, e))}
IntRead(s, t) ==
  LET p == Skip(s, s.rd + 1)  c == Get(s, p)  d == Get(s, p + 1) IN
  CASE Stop(c) -> {Bad(p - 1, "Read")}
    [] c = "-" -> IF MinT[t] = "0" THEN {Bad(p, "Conversion")} ELSE {Digits(s, p + 1, TRUE, t)}
    [] c = "+" -> {Digits(s, p + 1, FALSE, t)}
    [] c = "0" -> IF d = "ERR" THEN {Bad(p, "Read")} ELSE IF d = "END" THEN {Ok(p, "0")} ELSE IF d = "x" THEN Hex(s, p + 2, t) ELSE IF d \in Dec THEN {Digits(s, p + 1, FALSE, t)} ELSE {Ok(p + 1, "0")}
    [] c = "x" -> Hex(s, p + 1, t)
    [] OTHER -> {Digits(s, p, FALSE, t)}
\* ---- floats: the text of the number with at most sig significant digits (rounded either way)
RECURSIVE StripR(_), LeadZ(_), Inc(_)
StripR(q) == IF q # <<>> /\ q[Len(q)] = "0" THEN StripR(SubSeq(q, 1, Len(q) - 1)) ELSE q
LeadZ(q) == IF q = <<>> \/ q[1] # "0" THEN 0 ELSE 1 + LeadZ(Tail(q))
Inc(q) == IF q = <<>> THEN <<"1">> ELSE IF q[Len(q)] = "9" THEN Inc(SubSeq(q, 1, Len(q) - 1)) \o <<"0">> ELSE SubSeq(q, 1, Len(q) - 1) \o <<ToString(DigitVal[q[Len(q)]] + 1)>>
PlainT(neg, q, k) == \* digits q, the last k of which are decimals
  LET i == Strip(<<"0">> \o SubSeq(q, 1, Len(q) - k))  f == StripR(SubSeq(q, Len(q) - k + 1, Len(q)))
      t == Glue(i) \o (IF f = <<>> THEN "" ELSE "." \o Glue(f)) IN (IF neg /\ t # "0" THEN "-" ELSE "") \o t
FltTexts(neg, ip, fp, sig) ==
  LET q == ip \o fp  z == LeadZ(q)  m == Len(q) - z - sig IN       \* m digits too many
  IF m <= 0 THEN {PlainT(neg, q, Len(fp))}
  ELSE LET k == SubSeq(q, 1, Len(q) - m)  F(x) == PlainT(neg, <<"0">> \o x \o Rep(m, "0"), Len(fp)) IN
       IF \A j \in Len(k) + 1..Len(q) : q[j] = "0" THEN {F(k)} ELSE {F(k), F(Inc(k))}
\* too large for the type (digits in front of the point; a number of exactly as many digits as the largest is not judged)
Huge(ip, sig) == Len(Strip(ip)) > (IF sig = 6 THEN 39 ELSE 309)
FltVal(n, neg, ip, fp, sig) == IF ip # <<>> /\ Huge(ip, sig) THEN {Bad(n, "OutOfRange")} ELSE IF ip # <<>> /\ Len(Strip(ip)) = (IF sig = 6 THEN 39 ELSE 309) THEN {} ELSE {Ok(n, v) : v \in FltTexts(neg, ip, fp, sig)}
FltRead(s, sig) ==
  LET p0 == Skip(s, s.rd + 1)  c == Get(s, p0)
      neg == c = "-"
      p == IF c \in {"-", "+"} THEN p0 + 1 ELSE p0
      e == Run(s, p, Dec)
      f == Run(s, e + 1, Dec)
  IN IF Stop(Get(s, p)) THEN {Bad(p - 1, "Read")}
     ELSE IF Get(s, e) = "ERR" THEN {Bad(e - 1, "Read")}
     ELSE IF Get(s, e) # "." THEN (IF e = p THEN {Bad(Past(s, e), "Conversion")} ELSE FltVal(Past(s, e), neg, SubSeq(s.buf, p, e - 1), <<>>, sig))
     ELSE IF Get(s, f) = "ERR" THEN {Bad(f - 1, "Read")}
     ELSE IF e = p /\ f = e + 1 THEN {Bad(Past(s, f), "Conversion")} \cup (IF Get(s, f) = "END" THEN {Bad(Past(s, f), "Read")} ELSE {})
     ELSE FltVal(Past(s, f), neg, SubSeq(s.buf, p, e - 1), SubSeq(s.buf, e + 1, f - 1), sig)
WordRead(s) ==
  LET p == Skip(s, s.rd + 1)  e == Word(s, p) IN
  IF Stop(Get(s, p)) THEN {Bad(p - 1, "Read")}
  ELSE {Ok(Past(s, e), Glue(SubSeq(s.buf, p, e - 1)))} \cup (IF Get(s, e) = "ERR" THEN {Bad(e - 1, "Read")} ELSE {})
BoolRead(s) == {IF o.e # "" THEN o ELSE IF o.v \in {"true", "True", "TRUE"} THEN Ok(o.n, "1") ELSE IF o.v \in {"false", "False", "FALSE"} THEN Ok(o.n, "0") ELSE Bad(o.n, "Conversion") : o \in WordRead(s)}
CharRead(s) == LET p == IF s.raw = 1 THEN s.rd + 1 ELSE Skip(s, s.rd + 1) IN IF Stop(Get(s, p)) THEN {Bad(p - 1, "Read")} ELSE {Ok(p, Esc(<<Get(s, p)>>))}
Read(s, t) == CASE t \in 1..9 -> IntRead(s, t) [] t = 10 -> FltRead(s, 6) [] t = 11 -> FltRead(s, 15) [] t = 12 -> WordRead(s) [] t = 13 -> BoolRead(s) [] OTHER -> CharRead(s)
Show(o) == IF o.e = "" THEN "ok:" \o o.v ELSE "fail:" \o o.e
Put(s, q) == IF s.full = 1 THEN [s EXCEPT !.err = "Write"] ELSE [s EXCEPT !.buf = @ \o q, !.err = ""]
W(s, q) == LET t == Put(s, q) IN One(t, IF t.err = "" THEN "ok" ELSE "fail:" \o t.err)
RECURSIVE Step(_, _)
Step(s, c) ==
  LET op == c[1] IN
  CASE s.shut = 1 /\ op # "shut" -> IF op \in {"text", "num", "flt", "big", "bool", "read"} THEN One(s, "throw:Open") ELSE IF op \in {"fail", "left", "size", "str", "flushes", "raw"} THEN {[x EXCEPT !.s.shut = 1] : x \in Step([s EXCEPT !.shut = 0], c)} ELSE {}
    [] op = "shut" -> One([s EXCEPT !.shut = c[2]], "ok")
    [] op = "text" -> W(s, c[3])                                                                 \* <<text, way, characters>>
    [] op = "num" -> W(s, Chars(c[3]))                                                             \* <<num, type, text of the number>>
    [] op = "flt" -> W(s, Chars(Fixed(c[3], 6)))                                                   \* <<flt, type, eighths>>
    [] op = "big" -> W(s, Chars((IF c[3] < 0 THEN "-" ELSE "") \o TextD(DecOf(<<ToString(Abs(c[3]))>> \o Rep(c[4], "0"), <<>>)) \o ".000000"))    \* <<big, type, n, e>>: n * 16^e
    [] op = "bool" -> W(s, Chars(IF c[2] = 1 THEN "true" ELSE "false"))
    [] op = "endl" -> LET t == Put(s, <<"\n">>) IN One([t EXCEPT !.fl = @ + 1], IF t.err = "" THEN "ok" ELSE "fail:" \o t.err)
    [] op = "clr" -> W(s, Rep(80, "\n"))
    [] op = "flush" -> One([s EXCEPT !.fl = @ + 1], IF s.err = "" THEN "ok" ELSE "fail:" \o s.err)
    [] op = "flushes" -> One(s, ToString(s.fl))
    [] op = "read" -> UNION {One([s EXCEPT !.rd = o.n, !.err = o.e], Show(o)) : o \in Read(s, c[2])}        \* <<read, type>>
    \* while the device is read, another stream with its own text is read: <<nest, type, text of the other>>
    [] op = "nest" -> UNION {UNION {One([s EXCEPT !.rd = o.n, !.err = o.e], Show(o) \o "|" \o Show(x)) : x \in Read([Init0 EXCEPT !.buf = c[3]], c[2])} : o \in Read(s, c[2])}
    [] op = "left" -> One(s, ToString(Len(s.buf) - s.rd))
    [] op = "size" -> One(s, ToString(Len(s.buf)))
    [] op = "str" -> One(s, Esc(s.buf))
    [] op = "clear" -> One([s EXCEPT !.buf = <<>>, !.rd = 0, !.bad = 0], "ok")
    [] op = "raw" -> One([s EXCEPT !.raw = c[2]], "ok")
    [] op = "break" -> One([s EXCEPT !.bad = s.rd + c[2]], "ok")                                     \* the k-th character from here on cannot be read
    [] op = "heal" -> One([s EXCEPT !.bad = 0], "ok")
    [] op = "full" -> One([s EXCEPT !.full = c[2]], "ok")
    [] op = "fail" -> One(s, IF s.err = "" THEN "0" ELSE "1:" \o s.err)
    \* the string device itself: <<dread, n>>, <<dwrite, way, characters>>
    [] op = "dread" -> LET n == Min2(c[2], Len(s.buf) - s.rd) IN One([s EXCEPT !.rd = @ + n], ToString(n) \o ":" \o Esc(SubSeq(s.buf, s.rd + 1, s.rd + n)))
    [] op = "dwrite" -> One([s EXCEPT !.buf = @ \o c[3]], ToString(Len(c[3])))
    [] OTHER -> {}
====
