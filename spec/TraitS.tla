---- MODULE TraitS ----
\* What the traits of bytes and devices, the limits of floating point types, and the metaprogramming helpers say of each type.
EXTENDS Util
Init0 == [n |-> 0]
Bytes(t) == CASE t = "char" -> "110" [] t = "schar" -> "110" [] t = "uchar" -> "101" [] OTHER -> "000"
\* sink, source, both, seekable
Device(t) == CASE t \in {"String", "Serial", "SocketClient", "SocketServer"} -> "1110" [] t \in {"OFile", "SharedFile", "OConsole", "EConsole"} -> "1000" [] t = "IConsole" -> "0100" [] OTHER -> "0000"
\* bytes, bits, the ends, how fine a comparison is (tenths of decimal digits), in which type
Float(t) == CASE t = "float" -> "4,32,max,min,50,own" [] t = "double" -> "8,64,max,min,120,own" [] t = "ldouble" -> "16,128,max,min,150,own"
Precision(t) == IF t \in {"char", "uchar", "short", "ushort"} THEN "50,float" ELSE "0,float"
Whole == {"char", "short", "int", "long", "llong"}
Uns(t) == IF t \in {"uchar", "ushort", "uint", "ulong", "ullong"} THEN t ELSE IF t \in Whole THEN (IF t = "llong" THEN "ullong" ELSE "u" \o t) ELSE "none"
Step(s, c) == One(s,
  CASE c[1] = "bytes" -> Bytes(c[2]) [] c[1] = "device" -> Device(c[2]) [] c[1] = "float" -> Float(c[2]) [] c[1] = "precision" -> Precision(c[2]) [] c[1] = "unsigned" -> Uns(c[2])
    [] c[1] = "if" -> IF c[2] = 1 THEN "char" ELSE "float" [] c[1] = "enable" -> IF c[2] = 1 THEN "void,float,void,char" ELSE "none,none,none,none"
    [] c[1] = "bool" -> (IF c[2] = 1 THEN "11" ELSE "00") \o "1" [] c[1] = "failed" -> "cannot" [] c[1] = "void" -> "nothing" [] c[1] = "sizes" -> "1,2,4,8,1,2,4,8,4,8")
====
