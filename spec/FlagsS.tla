---- MODULE FlagsS ----
\* ecl::Flags<Enum>: a set of bits.  Three flag objects, each a subset of 0..31; answers show the int they convert to.
EXTENDS Util
Bits == 0..31
RECURSIVE Pow2(_), Val(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Val(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN
          (IF b = 31 THEN -2147483647 - 1 ELSE Pow2(b)) + Val(S \ {b})
SetOf(q) == {q[i] : i \in 1..Len(q)}
Xor(X, Y) == (X \cup Y) \ (X \cap Y)
Init0 == <<{}, {}, {}>>
Ans(s) == ToString(Val(s[1])) \o "," \o ToString(Val(s[2])) \o "," \o ToString(Val(s[3]))
\* enumerator / mask arguments are lists of bit numbers
Step(s, c) ==
  LET Set(i, v) == LET t == [s EXCEPT ![i] = v] IN One(t, Ans(t))
      x == s[c[2]]
  IN CASE c[1] = "fromenum" -> Set(c[2], SetOf(c[3]))
       [] c[1] = "copy"     -> Set(c[2], s[c[3]])
       [] c[1] = "assign"   -> Set(c[2], s[c[3]])
       [] c[1] = "assignenum" -> Set(c[2], SetOf(c[3]))
       [] c[1] = "clear"    -> Set(c[2], {})
       [] c[1] = "default"  -> Set(c[2], {})
       [] c[1] = "ior"      -> Set(c[2], x \cup s[c[3]])
       [] c[1] = "iorenum"  -> Set(c[2], x \cup SetOf(c[3]))
       [] c[1] = "ixor"     -> Set(c[2], Xor(x, s[c[3]]))
       [] c[1] = "ixorenum" -> Set(c[2], Xor(x, SetOf(c[3])))
       [] c[1] = "iand"     -> Set(c[2], x \cap SetOf(c[3]))
       \* <<op, destination, operand(s)>>
       [] c[1] = "or"       -> Set(c[2], s[c[3]] \cup s[c[4]])
       [] c[1] = "orenum"   -> Set(c[2], s[c[3]] \cup SetOf(c[4]))
       [] c[1] = "enumor"   -> Set(c[2], s[c[3]] \cup SetOf(c[4]))
       [] c[1] = "xor"      -> Set(c[2], Xor(s[c[3]], s[c[4]]))
       [] c[1] = "xorenum"  -> Set(c[2], Xor(s[c[3]], SetOf(c[4])))
       [] c[1] = "andenum"  -> Set(c[2], s[c[3]] \cap SetOf(c[4]))
       [] c[1] = "andmask"  -> Set(c[2], s[c[3]] \cap SetOf(c[4]))
       [] c[1] = "not"      -> Set(c[2], Bits \ s[c[3]])
       \* the zero enumerator is reported set only by an empty flag set
       [] c[1] = "test"     -> One(s, B(IF SetOf(c[3]) = {} THEN x = {} ELSE x \cap SetOf(c[3]) # {}) \o Ans(s))
====
