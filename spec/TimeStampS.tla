---- MODULE TimeStampS ----
\* Time stamps: exact instants or durations, seconds and nanoseconds of one sign.
EXTENDS Util
G == 1000000000
\* t: two stamps <<sec, nsec>>; mono, real: the clocks
Init0 == [t |-> <<<<0, 0>>, <<0, 0>>>>, mono |-> <<0, 0>>, real |-> <<0, 0>>]
\* any seconds/nanoseconds pair with |nsec| < 2G brought to one sign
Carry(s, n) == IF n >= G THEN <<s + 1, n - G>> ELSE IF n <= -G THEN <<s - 1, n + G>> ELSE <<s, n>>
Sgn(v) == IF v[1] > 0 /\ v[2] < 0 THEN <<v[1] - 1, v[2] + G>> ELSE IF v[1] < 0 /\ v[2] > 0 THEN <<v[1] + 1, v[2] - G>> ELSE v
Norm(s, n) == Sgn(Carry(s, n))
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Pad(_, _)
Pad(x, n) == IF Len(x) >= n THEN x ELSE Pad("0" \o x, n)
Fmt(v) == (IF v[1] = 0 /\ v[2] < 0 THEN "-" ELSE "") \o ToString(v[1]) \o "." \o Pad(ToString(Abs(v[2])), 9)
Set(s, k, v) == One([s EXCEPT !.t[k + 1] = v], JoinI(v))
Ok(a, b) == a = 0 \/ (a > 0 /\ b >= 0) \/ (a < 0 /\ b <= 0)
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "clock" -> One([s EXCEPT !.mono = <<c[2], c[3]>>, !.real = <<c[4], c[5]>>], "ok")
    [] OTHER ->
  LET x == s.t[c[2] + 1] y == IF Len(c) > 2 /\ op \in {"add", "sub", "inc", "dec", "cmp", "copy"} THEN s.t[c[3] + 1] ELSE <<0, 0>> IN
  CASE op = "new" -> IF Ok(c[4], c[5]) THEN Set(s, c[2], <<c[4], c[5]>>) ELSE One(s, "InvalidInput")          \* <<new, k, way, sec, nsec>>
    [] op = "dbl" -> LET a == Abs(c[4]) g == IF c[4] < 0 THEN -1 ELSE 1 IN Set(s, c[2], <<g * (a \div 512), g * 1953125 * (a % 512)>>)    \* <<dbl, k, way, n>> : n/512 s
    [] op = "now" -> Set(s, c[2], IF c[3] = 2 THEN s.real ELSE s.mono)
    \* the clock cannot be read: told by kind, the stamp stays (builds with assertions)
    [] op = "bad" -> One(s, "throw:" \o (CASE c[4] = "EINVAL" -> "NotSupported" [] c[4] = "EFAULT" -> "OutOfRange" [] OTHER -> "Unknown"))
    [] op = "copy" -> Set(s, c[2], y)
    [] op = "get" -> One(s, JoinI(<<x[1], TDiv(x[2], 1000000), TDiv(x[2], 1000), x[2]>>))
    [] op = "double" -> One(s, JoinI(x))
    [] op = "cmp" -> One(s, B(x = y) \o B(x # y) \o B(~Lt(y, x)) \o B(~Lt(x, y)) \o B(Lt(x, y)) \o B(Lt(y, x)))
    [] op = "add" -> Set(s, c[4], Add(x, y))
    [] op = "sub" -> Set(s, c[4], Sub(x, y))
    [] op = "inc" -> Set(s, c[2], Add(x, y))
    [] op = "dec" -> Set(s, c[2], Sub(x, y))
    [] op = "show" -> One(s, Fmt(x))
    \* a double that is not exact: rounded towards zero by at most one nanosecond
    [] op = "any" -> LET v == <<c[3], c[4]>> w == IF c[4] # 0 THEN Sub(v, <<0, IF c[3] + c[4] < 0 THEN -1 ELSE 1>>) ELSE v IN Set(s, c[2], v) \cup Set(s, c[2], w)
    [] OTHER -> {}
\* every stamp has one sign and less than a second of nanoseconds
Inv(s) == \A k \in 1..2 : LET v == s.t[k] IN Abs(v[2]) < G /\ Ok(v[1], v[2])
====
