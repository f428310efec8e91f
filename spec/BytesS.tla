---- MODULE BytesS ----
\* Conversion between integers and byte arrays.  Integers are given as their bytes, lowest first.
EXTENDS Util
Init0 == [n |-> 0]
Hex == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"} |->
          CASE c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12 [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15
            [] c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
\* the bytes a string such as "0x32 0x64" spells, or <<-1>> if it spells none
RECURSIVE Parse(_, _)
Parse(q, acc) ==
  IF q = <<>> THEN acc
  ELSE IF q[1] = " " THEN Parse(Tail(q), acc)
  ELSE IF Len(q) < 4 \/ q[1] # "0" \/ q[2] # "x" THEN <<-1>>
  ELSE IF q[3] \notin DOMAIN Hex \/ q[4] \notin DOMAIN Hex THEN <<-1>>
  ELSE Parse(SubSeq(q, 5, Len(q)), Append(acc, 16 * Hex[q[3]] + Hex[q[4]]))
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "to" -> \* <<to, type, array kind, array size, bytes>>
         One(s, IF c[4] = Len(c[5]) THEN JoinI(c[5]) ELSE "Conversion")
    [] op = "from" -> \* <<from, type, array kind, width, bytes>>
         One(s, IF Len(c[5]) > c[4] THEN "Conversion" ELSE JoinI(c[5] \o Rep(c[4] - Len(c[5]), 0)))
    [] op = "hex" -> LET p == Parse(c[3], <<>>) IN One(s, IF p = <<-1>> THEN "Conversion" ELSE JoinI(p))     \* <<hex, way, characters>>
    [] OTHER -> {}
====
