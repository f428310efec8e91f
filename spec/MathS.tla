---- MODULE MathS ----
\* ecl_math: sign functions, cube roots, norms, fuzzy comparison, constants -- on arguments where the result is an
\* exact integer (or is given to fixed digits), so that the specification decides without rounding.
EXTENDS Util
Init0 == 0
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
ISqrt(n) == CHOOSE r \in 0..46340 : r * r <= n /\ (r = 46340 \/ (r + 1) * (r + 1) > n)
\* x, y in units of 1/4; precision p in eighths
Approx(x, y, p) == 8 * Abs(x - y) <= p * Min2(Abs(x), Abs(y))
Step(s, c) ==
  CASE c[1] = "sign"  -> One(s, ToString(Sgn(c[2])))
    [] c[1] = "psign" -> One(s, ToString(IF c[2] >= 0 THEN 1 ELSE -1))
    [] c[1] = "nsign" -> One(s, ToString(IF c[2] > 0 THEN 1 ELSE -1))
    [] c[1] = "cube"  -> One(s, ToString(c[2]))        \* cube_root(r^3) = r, by magnitude and sign
    [] c[1] = "norm2" -> One(s, ToString(c[4]))         \* <<norm2, a, b, r>> with a^2 + b^2 = r^2
    [] c[1] = "norm3" -> One(s, ToString(c[5]))
    [] c[1] = "approx" -> One(s, B(Approx(c[2], c[3], c[4])))
    [] c[1] = "leq"    -> One(s, B(c[2] <= c[3] \/ Approx(c[2], c[3], c[4])))
    [] c[1] = "iapprox" -> One(s, B(c[2] = c[3]))
    [] c[1] = "ileq"    -> One(s, B(c[2] <= c[3]))
    [] c[1] = "mapprox" -> One(s, B(Approx(4 * c[2], c[3], c[4])))     \* integer against floating point (quarters)
    [] c[1] = "const" -> One(s, CASE c[2] = "pi" -> "314159265" [] c[2] = "two_pi" -> "628318530" [] c[2] = "pi_2" -> "157079632"
         [] c[2] = "pi_4" -> "78539816" [] c[2] = "pi_f" -> "3141592" [] c[2] = "two_pi_f" -> "6283185" [] c[2] = "pi_2_f" -> "1570796"
         [] c[2] = "pi_4_f" -> "785398")
    \* type traits: <<limits, type, bytes, signed>>
    [] c[1] = "limits" -> LET n == c[3] sg == c[4] = 1 ff == Rep(n - 1, 255) zz == Rep(n - 1, 0) IN
         One(s, ToString(n) \o ";" \o ToString(8 * n) \o ";1;" \o JoinI(Append(zz, IF sg THEN 128 ELSE 0)) \o ";"
                \o JoinI(Append(ff, IF sg THEN 127 ELSE 255)))
    \* <<traits, type, integral, signed, unsigned, float, byte, fundamental>>
    [] c[1] = "traits" -> One(s, B(c[3] = 1) \o B(c[4] = 1) \o B(c[5] = 1) \o B(c[6] = 1))
TypeOK == TRUE
PythOK(a, b, r) == a * a + b * b = r * r
====
