---- MODULE NumText ----
\* Numbers as text.
EXTENDS Util
Pow10 == <<1, 10, 100, 1000>>
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
RECURSIVE PadZ(_, _)
PadZ(x, n) == IF Len(x) >= n THEN x ELSE PadZ("0" \o x, n)
\* n eighths with p decimals, ties to even, as printf gives them
Fixed(n, p) ==
  LET m == Abs(n) * 125                                    \* thousandths
      k == Min2(p, 3)
      u == Pow10[4 - k]
      q == m \div u
      r == m % u
      v == IF 2 * r > u \/ (2 * r = u /\ q % 2 = 1) THEN q + 1 ELSE q
      w == Pow10[k + 1]
  IN (IF n < 0 THEN "-" ELSE "") \o ToString(v \div w) \o (IF p = 0 THEN "" ELSE "." \o (IF k = 0 THEN "" ELSE PadZ(ToString(v % w), k)) \o Zeros(p - k))
DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
IsDigit(ch) == ch \in DOMAIN DigitVal
Chars(x) == [i \in 1..Len(x) |-> SubSeq(x, i, i)]
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN "" ELSE q[1] \o Glue(Tail(q))
\* digits without leading zeros (at least one)
RECURSIVE Strip(_)
Strip(q) == IF Len(q) > 1 /\ q[1] = "0" THEN Strip(Tail(q)) ELSE q
\* compares two digit strings (no leading zeros) as numbers
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF DigitVal[a[1]] # DigitVal[b[1]] THEN DigitVal[a[1]] < DigitVal[b[1]] ELSE LexLeq(Tail(a), Tail(b))
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
====
