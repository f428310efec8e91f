---- MODULE PolyS ----
\* ecl_geometry polynomials.  A polynomial is the sequence of its integer coefficients, constant term first.
\* Everything is stated over the integers, so that evaluation, shifting, differentiation, division, extrema and roots are exact.
EXTENDS Util
Init0 == <<>>
Deg(p) == Len(p) - 1
RECURSIVE Pow(_, _), Horner(_, _, _), Fact(_), Binom(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Horner(p, x, i) == IF i = Len(p) THEN p[i] ELSE p[i] + x * Horner(p, x, i + 1)
Eval(p, x) == Horner(p, x, 1)
Diff(p) == IF Len(p) = 1 THEN <<0>> ELSE [i \in 1..(Len(p) - 1) |-> i * p[i + 1]]
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
\* f(x) -> f(x - h)
Shift(p, h) == [i \in 1..Len(p) |-> SumS([j \in 1..(Len(p) - i + 1) |-> Binom(i + j - 2, i - 1) * Pow(-h, j - 1) * p[i + j - 1]])]
\* synthetic division by (x - f): quotient and remainder
Quot(p, f) == [i \in 1..(Len(p) - 1) |-> SumS([j \in 1..(Len(p) - i) |-> p[i + j] * Pow(f, j - 1)])]
Mul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |-> SumS([i \in 1..Len(p) |-> IF k - i + 1 \in 1..Len(q) THEN p[i] * q[k - i + 1] ELSE 0])]
Scale(a, p) == [i \in 1..Len(p) |-> a * p[i]]
\* two decimals, as printed by operator <<
Fix2(n) == ToString(n) \o ".00"
RECURSIVE Show(_, _)
Show(p, i) == IF i > Len(p) THEN "" ELSE (IF i = 1 THEN Fix2(p[1]) ELSE " + " \o Fix2(p[i]) \o "x^" \o ToString(i - 1)) \o Show(p, i + 1)
\* ascending list of a finite set of integers
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Roots(S) == ToString(Cardinality(S)) \o ":" \o JoinI(Asc(S))
\* extremum of p on [lo, hi], the critical points inside being integers
Cand(p, lo, hi) == {lo, hi} \cup {x \in lo..hi : Eval(Diff(p), x) = 0}
MaxOn(p, lo, hi) == CHOOSE v \in {Eval(p, x) : x \in Cand(p, lo, hi)} : \A x \in Cand(p, lo, hi) : Eval(p, x) <= v
MinOn(p, lo, hi) == CHOOSE v \in {Eval(p, x) : x \in Cand(p, lo, hi)} : \A x \in Cand(p, lo, hi) : Eval(p, x) >= v
Ext(s, lo, hi, p) == One(s, ToString(MaxOn(p, lo, hi)) \o "," \o ToString(MinOn(p, lo, hi)))
Pad4(p) == p \o Rep(4 - Len(p), 0)
Step(s, c) ==
  CASE c[1] = "new" -> One(c[2], "ok")
    [] c[1] = "put" -> One([s EXCEPT ![c[2] + 1] = c[3]], "ok")
    [] c[1] = "at" -> One(s, ToString(Eval(s, c[2])))
    [] c[1] = "d" -> One(s, ToString(Eval(Diff(s), c[2])))
    [] c[1] = "dd" -> One(s, ToString(Eval(Diff(Diff(s)), c[2])))
    [] c[1] = "deriv" -> One(s, JoinI(Diff(s)))
    [] c[1] = "coef" -> One(s, JoinI(s))
    [] c[1] = "shift" -> One(Shift(s, c[2]), "ok")
    [] c[1] = "show" -> One(s, Show(s, 1))
    [] c[1] = "div" -> One(s, JoinI(Quot(s, c[2])) \o ";" \o ToString(Eval(s, c[2])))
    [] c[1] = "pascal" -> One(s, JoinI([k \in 1..(c[2] - c[3] + 1) |-> Binom(c[3] + k - 1, c[3])]))     \* <<pascal, n, row>>
    \* interpolation: the polynomial built from boundary conditions meets them (its degree makes it unique)
    [] c[1] = "lin" -> One(s, JoinI(<<c[3], c[5], 2 * c[5] - c[3]>>))                 \* xi yi xf yf
    [] c[1] = "slope" -> One(s, JoinI(<<c[3], c[3] + c[4], c[4]>>))                   \* x y m
    [] c[1] = "cub1" -> One(s, JoinI(<<c[3], c[4], c[6], c[7]>>))                     \* xi yi di xf yf df
    [] c[1] = "cub2" -> One(s, JoinI(<<c[3], c[4], c[6], c[7]>>))                     \* xi yi ddi xf yf ddf
    [] c[1] = "quin" -> One(s, JoinI(<<c[3], c[4], c[5], c[7], c[8], c[9]>>))         \* xi yi di ddi xf yf df ddf
    \* roots of polynomials built from their roots
    [] c[1] = "rlin" -> One(s, IF c[2] = 0 THEN Roots({}) ELSE Roots({c[3]}))          \* a (x - r), or the constant r
    [] c[1] = "rquad" -> One(s, Roots({c[3], c[4]}))                                  \* a (x - r)(x - t)
    [] c[1] = "rquad0" -> One(s, Roots({}))                                           \* a ((x - h)^2 + k), k > 0
    [] c[1] = "rquadl" -> One(s, IF c[2] = 0 THEN Roots({}) ELSE Roots({c[3]}))       \* a quadratic without x^2: as rlin
    [] c[1] = "rcub" -> One(s, Roots({c[3], c[4], c[5]}))                             \* a (x - r)(x - t)(x - u)
    [] c[1] = "rcub1" -> One(s, Roots({c[3]}))                                        \* a (x - r)((x - h)^2 + k), k > 0
    [] c[1] = "rcubq" -> One(s, Roots({c[3], c[4]}))                                  \* a cubic without x^3: a (x - r)(x - t)
    [] c[1] = "rcubl" -> One(s, IF c[2] = 0 THEN Roots({}) ELSE Roots({c[3]}))
    \* extrema on an interval <<.., lo, hi, ...>>
    [] c[1] = "elin" -> Ext(s, c[2], c[3], <<c[4], c[5]>>)
    \* a leading term too small to be seen nearby: a quadratic's extremes, a line's root (and another far away)
    [] c[1] = "ecubs" -> IF c[4][4] # 0 \/ c[5] < 50 \/ Abs(c[6]) # 1 THEN {} ELSE Ext(s, c[2], c[3], c[4])             \* <<ecubs, low, high, coefficients, e, sign>>: sign * 2^-e
    [] c[1] = "rquads" -> IF c[2] = 0 \/ c[4] < 50 \/ Abs(c[5]) # 1 THEN {} ELSE One(s, "2:" \o ToString(c[3]))       \* <<rquads, a, r, e, sign>>
    [] c[1] = "ecub" -> Ext(s, c[2], c[3], c[4])
    \* lines y = a0 + b0 x and y = a1 + b1 x: the flag tells whether the last request failed
    [] c[1] = "cross" -> LET dd == c[5] - c[3] IN
         IF dd = 0 THEN One(s, "throw:OutOfRange;1")
         ELSE LET x == TDiv(c[2] - c[4], dd) IN One(s, ToString(x) \o "," \o ToString(c[2] + c[3] * x) \o ";0")
\* facts the specification must satisfy by itself
ShiftOK(p, h) == \A x \in -3..3 : Eval(Shift(p, h), x) = Eval(p, x - h)
DivOK(p, f) == \A x \in -3..3 : Eval(p, x) = (x - f) * Eval(Quot(p, f), x) + Eval(p, f)
Inv(s) == s = <<>> \/ (\A h \in -2..2 : ShiftOK(s, h) /\ (Len(s) > 1 => DivOK(s, h)))
====
