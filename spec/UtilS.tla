---- MODULE UtilS ----
\* The utilities: programs that carry what is typed to the other end (a port or a connection) and show what comes from there, and two that convert rotations.
\* kind 0 hex, 1 serial, 2 socket client, 3 socket server. x: shows hex; t: time stamps; nl: at the start of a line; up: running; in: may still type; link: connected.
EXTENDS Util
Init0 == [kind |-> 0, x |-> 0, t |-> 0, nl |-> 1, up |-> 0, in |-> 0, link |-> 0]
RECURSIVE Show(_, _, _), Wire(_), Chars(_)
Chars(t) == IF t = "" THEN <<>> ELSE <<Ch(t, 1)>> \o Chars(SubSeq(t, 2, Len(t)))
Line(s) == IF s.kind <= 1 THEN s.t ELSE IF s.x = 1 THEN s.t ELSE IF s.nl = 1 THEN s.t ELSE 0
Stamp(s) == IF Line(s) = 1 THEN (IF s.kind <= 1 THEN "[T]_" ELSE "[T]_:_") ELSE ""
\* codes of the characters used
Code == [c \in {"_", "|", "a", "b", "z", "A", "Z", "0", "9", "~", "!", "{"} |-> CASE c = "_" -> "20" [] c = "|" -> "0a" [] c = "a" -> "61" [] c = "b" -> "62" [] c = "z" -> "7a" [] c = "A" -> "41" [] c = "Z" -> "5a" [] c = "0" -> "30" [] c = "9" -> "39" [] c = "~" -> "7e" [] c = "!" -> "21" [] OTHER -> "7b"]
Char(s, c) == IF s.x = 0 THEN c ELSE "0x" \o Code[c] \o (IF s.kind <= 1 THEN "_|" ELSE "|")
\* what appears, and whether a line begins afterwards
Show(s, q, acc) == IF q = <<>> THEN [txt |-> acc, nl |-> s.nl] ELSE Show([s EXCEPT !.nl = IF q[1] = "|" THEN 1 ELSE 0], Tail(q), acc \o Stamp(s) \o Char(s, q[1]))
None(t) == IF t = "" THEN "nothing" ELSE t
\* the characters spelled by codes "0x41_0x42"
Named(d) == CHOOSE c \in DOMAIN Code : Code[c] = d
Wire(q) == IF q = "" THEN "" ELSE IF Ch(q, 1) \in {"_", "|"} THEN Wire(SubSeq(q, 2, Len(q))) ELSE Named(SubSeq(q, 3, 4)) \o Wire(SubSeq(q, 5, Len(q)))
Sent(s, t) == IF s.kind = 0 THEN Wire(t) ELSE t
Echo(s, t) == CASE s.kind = 0 -> "|" \o (IF s.t = 1 THEN "[T]|" ELSE "") [] s.kind = 1 -> (IF s.t = 1 THEN "[T]|" ELSE "") [] OTHER -> (IF s.t = 1 THEN "[T]_:_" ELSE "") \o t
Has(a, o) == \E j \in DOMAIN a : a[j] \in o
Opt(a, o, d) == IF \E j \in DOMAIN a : a[j] \in o THEN a[(CHOOSE j \in DOMAIN a : a[j] \in o) + 1] ELSE d
Baud(a) == LET b == Opt(a, {"-b", "--baud"}, "115200") IN IF b \in {"9600", "38400"} THEN b ELSE "115200"
Begin(s, k, a) == [kind |-> k, x |-> IF k = 0 \/ Has(a, {"-x", "--hex"}) THEN 1 ELSE 0, t |-> IF Has(a, {"-t", "--timestamp", "--timestamps"}) THEN 1 ELSE 0, nl |-> 1, up |-> 1, in |-> 1, link |-> 1]
\* what the programs that tell about the system print
Stars == "***********************************************************"
Sp(n) == RepS("_", n)
Title(t, n) == Stars \o "|" \o t \o "|" \o Stars \o "|"
Limits(t, b, lo, hi) == LET n == "numeric_limits<" \o t \o ">::" IN n \o "bytes_" \o ToString(b) \o "|" \o n \o "bits_" \o ToString(8 * b) \o "|" \o n \o "min_" \o lo \o "|" \o n \o "max_" \o hi \o "|"
Longest == <<"-9223372036854775808", "9223372036854775807", "18446744073709551615">>
RECURSIVE JoinL(_, _)
JoinL(q, sep) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinL(Tail(q), sep)
Sizes == "|" \o Title(Sp(23) \o "numeric_limits<>", 0) \o "|" \o JoinL(<<Limits("char", 1, "-128", "127"), Limits("unsigned_char", 1, "0", "255"), Limits("short", 2, "-32768", "32767"), Limits("unsigned_short", 2, "0", "65535"),
   Limits("int", 4, "-2147483648", "2147483647"), Limits("unsigned_int", 4, "0", "4294967295"), Limits("long", 8, Longest[1], Longest[2]), Limits("unsigned_long", 8, "0", Longest[3]), Limits("long_long", 8, Longest[1], Longest[2]), Limits("unsigned_long_long", 8, "0", Longest[3])>>, "|")
Dots(t) == t \o RepS(".", 43 - Len(t))
Level(pol, n) == CASE pol = "FIFO" -> "Unknown" [] pol = "RR" -> (IF n >= 30 THEN "RealTime4" ELSE IF n >= 20 THEN "RealTime3" ELSE IF n >= 10 THEN "RealTime2" ELSE "RealTime1")
   [] OTHER -> (CASE n = -20 -> "Critical" [] n = -10 -> "High" [] n = 10 -> "Low" [] n \in {19, 20} -> "Background" [] OTHER -> "Normal")
Told(pol, n) == "|" \o Title("*" \o Sp(18) \o "System_Statistics", 0) \o "|" \o Dots("Real_Time_Priorities_[Low,High]") \o "[1,99]|" \o Dots("Niceness_[Low,High]") \o "[20,-20]|"
   \o "|" \o Title("*" \o Sp(17) \o "Priority_Statistics", 0) \o "|" \o Dots("Scheduler") \o "SCHED_" \o pol \o (IF pol = "OTHER" THEN "" ELSE "_[RT]") \o "|" \o Dots("Priority") \o Level(pol, n) \o "|"
   \o "|This_is_very_much_a_work_in_progress....|"
Step(s, c) == LET op == c[1] IN
  CASE op = "start" -> LET n == Begin(s, c[2], c[3]) IN One(n, (CASE c[2] <= 1 -> Baud(c[3]) [] c[2] = 2 -> "connecting" [] OTHER -> "listening") \o (IF c[2] = 0 THEN "" ELSE IF n.x = 1 THEN ",hex" ELSE ",ascii"))
  [] op = "type" -> One(s, None(Sent(s, c[2])) \o ";" \o None(Echo(s, c[2])))
  [] op = "arrive" -> \* <<arrive, text, how much, failing reads>>: failed reads show nothing and end nothing
       LET r == Show(s, Chars(c[2]), "") IN One([s EXCEPT !.nl = r.nl], None(r.txt))
  [] op = "eof" -> One([s EXCEPT !.in = 0], "ok")
  [] op = "hangup" -> One([s EXCEPT !.link = 0], IF s.kind = 2 THEN "Server_Hung_Up.|" ELSE "Client_Hung_Up.|")
  [] op = "finish" -> One([s EXCEPT !.up = 0], IF s.kind = 2 THEN "passed,exit:0" ELSE "exit:1")
  \* the quaternion of a yaw (in degrees), the yaw of a quaternion
  [] op = "tell" -> One(s, IF Len(c) = 1 THEN Sizes ELSE Told(c[2], c[3]))
  [] op = "run" -> One(s, IF Len(c) = 3 THEN "right" ELSE IF c[3] = 1 THEN ToString(c[4]) ELSE "exit:1")
====
