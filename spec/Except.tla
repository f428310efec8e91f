---- MODULE Except ----
\* ecl's exceptions: an exception carries the location, flag, message (and data) it was raised with; a rethrow
\* puts its own location in front and keeps everything else.  The text is shown with "|" for newline, "_" for
\* space and "<n>" for the description of flag n.
EXTENDS Util
Sep == "|_________:_"
None == [loc |-> "", flag |-> 0, msg |-> "", data |-> ""]
Init0 == [e |-> None, d |-> None, log |-> 0]
What(e) == "|Location_:_" \o e.loc \o "|Flag_____:_<" \o ToString(e.flag) \o ">|" \o (IF e.msg = "" THEN "" ELSE "Detail___:_" \o e.msg \o "|")
WhatD(e) == What(e) \o "Data_____:_" \o e.data \o "|"
Ans(e) == ToString(e.flag) \o ";" \o e.msg \o ";" \o What(e)
AnsD(e) == ToString(e.flag) \o ";" \o e.data \o ";" \o WhatD(e)
Step(s, c) ==
  CASE c[1] = "raise" -> LET e == [loc |-> c[2], flag |-> c[3], msg |-> c[4], data |-> ""] IN One([s EXCEPT !.e = e], Ans(e))
    [] c[1] = "again" -> LET e == [s.e EXCEPT !.loc = c[2] \o Sep \o @] IN One([s EXCEPT !.e = e], Ans(e))
    [] c[1] = "copy"  -> One(s, Ans(s.e))
    [] c[1] = "draise" -> LET e == [loc |-> c[2], flag |-> c[3], msg |-> c[4], data |-> c[5]] IN One([s EXCEPT !.d = e], AnsD(e))
    [] c[1] = "dagain" -> LET e == [s.d EXCEPT !.loc = c[2] \o Sep \o @] IN One([s EXCEPT !.d = e], AnsD(e))
    \* ecl_assert_throw / ecl_debug_throw act in a debug build only, ecl_throw always.  <<assert, build, condition>>
    [] c[1] = "assert" -> One(s, IF c[2] = "debug" /\ c[3] = 0 THEN "threw" ELSE "went_on")
    [] c[1] = "debug"  -> One(s, IF c[2] = "debug" THEN "threw" ELSE "went_on")
    [] c[1] = "throw"  -> One(s, "threw")
====
