---- MODULE ConceptS ----
\* Compile time concept checks: a type is accepted if and only if it offers everything its concept asks for, wherever the check is put.
\* A type is a list of features: a name, "~" behind it if it answers with the wrong kind of thing, "-" if it is not public.
EXTENDS Util
Init0 == [n |-> 0]
Base == {"iterator", "begin", "end", "size"}
Chars(f) == {f \o ":s", f \o ":c", f \o ":u"}
\* each concept asks for one of each of these sets
Asks(c) == LET One1(S) == {{x} : x \in S} IN
  CASE c = "Container" -> One1(Base)
    [] c = "DynamicContainer" -> One1(Base \cup {"resize"})
    [] c = "ByteContainer" -> One1(Base) \cup {{"value:char", "value:signed", "value:unsigned"}}
    [] c = "SignedByteContainer" -> One1(Base) \cup {{"value:char", "value:signed"}}
    [] c = "UnsignedByteContainer" -> One1(Base) \cup {{"value:unsigned"}}
    [] c = "InputCharDevice" -> One1({"open", "read:c", "readn:c"})
    [] c = "OutputCharDevice" -> One1({"open", "write:c", "writen:c", "flush"})
    [] c = "InputOutputCharDevice" -> One1({"read:c", "readn:c", "write:c", "writen:c", "flush"})
    [] c = "InputByteDevice" -> One1({"isOpen"} \cup Chars("read") \cup Chars("readn"))
    [] c = "OutputByteDevice" -> One1({"isOpen", "flush"} \cup Chars("write") \cup Chars("writen"))
    [] c = "InputOutputByteDevice" -> One1({"isOpen", "flush"} \cup Chars("read") \cup Chars("readn") \cup Chars("write") \cup Chars("writen"))
    [] c = "Stream" -> One1({"put", "flush"})
    [] c = "NullaryFunction" -> One1({"result", "call"})
    [] c = "BluePrint" -> One1({"base", "instantiate", "apply"})
    [] c = "Own" -> {{"go"}}
Names == {"Container", "DynamicContainer", "ByteContainer", "SignedByteContainer", "UnsignedByteContainer", "InputCharDevice", "OutputCharDevice", "InputOutputCharDevice", "InputByteDevice", "OutputByteDevice", "InputOutputByteDevice", "Stream", "NullaryFunction", "BluePrint", "Own"}
\* what these answer is not asked for
Free == {"resize", "flush", "put", "call", "apply", "go"}
Offers(F, x) == x \in F \/ (x \in Free /\ (x \o "~") \in F)
Fits(c, F) == \A S \in Asks(c) : \E x \in S : Offers(F, x)
Step(s, c) == One(s, IF Fits(c[2], {c[4][i] : i \in 1..Len(c[4])}) THEN "accepts" ELSE "rejects")
\* a type that fits a concept fits every concept that asks for less; and having more never hurts
Less(a, b) == Asks(a) \subseteq Asks(b)
====
