---- MODULE CmdLineS ----
\* The command line parser.  Declaring arguments builds the state; a parse is a run of the token machine below over
\* the declared arguments, in their matching order, and never changes the declarations.
EXTENDS Util
Init0 == [on |-> FALSE, doc |-> FALSE, delim |-> " ", help |-> FALSE, ver |-> "", msg |-> "", prog |-> "", args |-> <<>>, list |-> <<>>, xors |-> <<>>, opt |-> FALSE, nreq |-> 0, nb |-> 0]
Chars(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE q[1] \o Str(Tail(q))
RECURSIVE JoinW(_, _)
JoinW(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinW(Tail(q), sep)
Blank == "*"
HasBlank(t) == \E i \in 2..Len(t) : t[i] = Blank
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DVal == [d \in Digits |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
Labelled(a) == a.k \in {"switch", "mswitch", "value", "multi"}
Unlabelled(a) == ~Labelled(a)
Switchy(a) == a.k \in {"switch", "mswitch"}
Valued(a) == ~Switchy(a)
Multi(a) == a.k \in {"multi", "umulti"}
Starts(t, q) == Len(t) >= Len(q) /\ SubSeq(t, 1, Len(q)) = q
----
\* What an argument is called.
Label(a) == (IF a.flag # "" THEN "-" \o a.flag \o " " ELSE "") \o "(--" \o a.name \o ")"
TypeDesc(a) == IF a.allow # <<>> THEN JoinW(a.allow, "|") ELSE a.td
BaseShort(a, val, delim) == LET id == (IF a.flag # "" THEN "-" \o a.flag ELSE "--" \o a.name) \o (IF Valued(a) THEN delim \o "<" \o val \o ">" ELSE "")
                            IN IF a.req THEN id ELSE "[" \o id \o "]"
BaseLong(a, val) == LET v == IF Valued(a) THEN " <" \o val \o ">" ELSE "" IN (IF a.flag # "" THEN "-" \o a.flag \o v \o ",  " ELSE "") \o "--" \o a.name \o v
ShortID(a, delim) == CASE a.k = "switch" -> BaseShort(a, "val", delim)
   [] a.k = "mswitch" -> BaseShort(a, "val", delim) \o " ... val"
   [] a.k = "value" -> BaseShort(a, TypeDesc(a), delim)
   [] a.k = "multi" -> BaseShort(a, TypeDesc(a), delim) \o " ... "
   [] a.k = "uval" -> "<" \o TypeDesc(a) \o ">"
   [] a.k = "umulti" -> "<" \o TypeDesc(a) \o "> ..."
LongID(a) == CASE a.k = "switch" -> BaseLong(a, "val")
   [] a.k = "mswitch" -> BaseLong(a, "val") \o "  (accepted multiple times) val"
   [] a.k = "value" -> BaseLong(a, TypeDesc(a))
   [] a.k = "multi" -> BaseLong(a, TypeDesc(a)) \o "  (accepted multiple times)"
   [] a.k = "uval" -> "<" \o TypeDesc(a) \o ">"
   [] a.k = "umulti" -> "<" \o TypeDesc(a) \o ">  (accepted multiple times)"
Descr(a) == (IF a.req THEN "(" \o a.rl \o ")  " ELSE "") \o a.desc
----
\* Declaring.
Builtin(fl, nm, ds) == [k |-> "switch", flag |-> fl, name |-> nm, desc |-> ds, req |-> FALSE, rl |-> "required", dflt |-> "0", type |-> "bool", td |-> "", allow |-> <<>>]
Clash(a, b) == IF Labelled(a) THEN (a.flag # "" /\ a.flag = b.flag) \/ a.name = b.name
               ELSE a.name = b.name \/ a.desc = Descr(b)
IllFormed(a) == Len(a.flag) > 1 \/ a.flag \in {"-", " "} \/ (\E i \in 1..Len(a.name) : Ch(a.name, i) \in {"-", " "})
IllText(a) == LET id == Label(a) IN IF Len(a.flag) > 1 THEN "spec:" \o id \o " -- Argument flag can only be one character long"
              ELSE IF a.flag \in {"-", " "} THEN "spec:" \o id \o " -- Argument flag cannot be either '-' or '--' or a space."
              ELSE "spec:" \o id \o " -- Argument name cannot contain either '-' or '--' or space."
Enlist(s, i) == LET a == s.args[i] IN [s EXCEPT !.list = IF Labelled(a) THEN <<i>> \o @ ELSE Append(@, i), !.nreq = @ + (IF a.req THEN 1 ELSE 0)]
Clashes(s, a) == \E j \in 1..Len(s.list) : Clash(a, s.args[s.list[j]])
ClashText(a) == "spec:" \o LongID(a) \o " -- Argument with same flag/name already exists!"
\* <<cmd, delimiter, help?, version, message, program>>
Begin(c) == LET h == c[3] = 1
                bs == (IF h THEN <<Builtin("h", "help", "Displays usage information and exits."), Builtin("", "version", "Displays version information and exits.")>> ELSE <<>>)
                      \o <<Builtin("-", "ignore_rest", "Ignores the rest of the labeled arguments following this flag.")>>
            IN [Init0 EXCEPT !.on = TRUE, !.delim = c[2], !.help = h, !.ver = c[4], !.msg = c[5], !.prog = c[6], !.args = bs,
                !.list = [i \in 1..Len(bs) |-> Len(bs) + 1 - i], !.nb = Len(bs)]
\* <<arg, kind, flag, name, description, required, default, type, type description, allowed, given to the parser at once>>
Declare(s, c) == LET a == [k |-> c[2], flag |-> c[3], name |-> c[4], desc |-> c[5], req |-> c[6] = 1 /\ c[2] \notin {"switch", "mswitch"}, rl |-> "required", dflt |-> c[7], type |-> c[8], td |-> c[9], allow |-> c[10]]
                     s1 == [s EXCEPT !.args = Append(@, a)]
                     tracked == a.k \in {"uval", "umulti"}
                     s2 == IF a.k = "uval" /\ ~a.req THEN [s1 EXCEPT !.opt = TRUE] ELSE s1
                 IN IF IllFormed(a) THEN One(s, IllText(a))
                    ELSE IF tracked /\ s.opt THEN One(s, "spec:" \o Label(a) \o " -- You can't specify ANY Unlabeled Arg following an optional Unlabeled Arg")
                    ELSE IF c[11] = 1 /\ Clashes(s, a) THEN One([s EXCEPT !.opt = s2.opt], ClashText(a))
                    ELSE IF c[11] = 1 THEN One(Enlist(s2, Len(s2.args)), "ok") ELSE One(s2, "ok")
RECURSIVE AddAll(_, _)
AddAll(s, q) == IF q = <<>> THEN One(s, "ok")
   ELSE LET i == q[1] a == [s.args[i] EXCEPT !.req = TRUE, !.rl = "OR required"] s1 == [s EXCEPT !.args[i] = a] IN
        IF Clashes(s1, a) THEN One(s1, ClashText(a)) ELSE AddAll(Enlist(s1, i), Tail(q))
----
\* Reading a value of a type from the characters t: [st |-> "ok" | "fail" | "many", v |-> text of the value]
RECURSIVE SkipWs(_, _), Run(_, _), StripL(_), StripR(_)
SkipWs(t, p) == IF p <= Len(t) /\ t[p] = " " THEN SkipWs(t, p + 1) ELSE p
Run(t, p) == IF p <= Len(t) /\ t[p] \in Digits THEN Run(t, p + 1) ELSE p        \* first position after the digits
StripL(q) == IF Len(q) > 1 /\ q[1] = "0" THEN StripL(Tail(q)) ELSE q
StripR(q) == IF q # <<>> /\ q[Len(q)] = "0" THEN StripR(SubSeq(q, 1, Len(q) - 1)) ELSE q
MaxI == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
TooBig(d, neg) == Len(d) > 10 \/ (Len(d) = 10 /\ \E k \in 1..10 : DVal[d[k]] > (IF k = 10 /\ neg THEN 8 ELSE MaxI[k]) /\ \A j \in 1..(k - 1) : DVal[d[j]] = MaxI[j])
\* one value from position p: [ok, v, next]
Bad == [ok |-> FALSE, v |-> "", next |-> 0, eof |-> TRUE]
ReadInt(t, p0) == LET p == SkipWs(t, p0)
                      sg == p <= Len(t) /\ t[p] \in {"+", "-"}
                      b == IF sg THEN p + 1 ELSE p
                      e == Run(t, b)
                      d == StripL(SubSeq(t, b, e - 1))
                      neg == sg /\ t[p] = "-"
                  IN IF e = b \/ TooBig(d, neg) THEN Bad
                     ELSE [ok |-> TRUE, v |-> (IF neg /\ d # <<"0">> THEN "-" ELSE "") \o Str(d), next |-> e, eof |-> e > Len(t)]
ReadReal(t, p0) == LET p == SkipWs(t, p0)
                       sg == p <= Len(t) /\ t[p] \in {"+", "-"}
                       b == IF sg THEN p + 1 ELSE p
                       e == Run(t, b)
                       dot == e <= Len(t) /\ t[e] = "."
                       f == IF dot THEN Run(t, e + 1) ELSE e
                       w == IF e > b THEN StripL(SubSeq(t, b, e - 1)) ELSE <<"0">>
                       fr == IF dot THEN StripR(SubSeq(t, e + 1, f - 1)) ELSE <<>>
                   IN IF (e = b) /\ ~(dot /\ f > e + 1) THEN Bad
                      ELSE [ok |-> TRUE, v |-> (IF sg /\ t[p] = "-" THEN "-" ELSE "") \o Str(w) \o (IF fr # <<>> THEN "." \o Str(fr) ELSE ""), next |-> f, eof |-> f > Len(t)]
ReadChar(t, p0) == LET p == SkipWs(t, p0) IN IF p > Len(t) THEN Bad ELSE [ok |-> TRUE, v |-> t[p], next |-> p + 1, eof |-> FALSE]
ReadOne(ty, t, p) == CASE ty = "int" -> ReadInt(t, p) [] ty = "double" -> ReadReal(t, p) [] ty = "char" -> ReadChar(t, p)
RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(ty, t, p, n, v) == IF p > Len(t) THEN [st |-> IF n = 0 THEN "fail" ELSE IF n > 1 THEN "many" ELSE "ok", v |-> v]
   ELSE LET r == ReadOne(ty, t, p) IN IF ~r.ok THEN [st |-> "fail", v |-> ""] ELSE IF r.eof THEN [st |-> IF n > 0 THEN "many" ELSE "ok", v |-> r.v] ELSE ReadAll(ty, t, r.next, n + 1, r.v)
Read(ty, t) == IF ty = "string" THEN [st |-> "ok", v |-> Str(t)] ELSE ReadAll(ty, t, 1, 0, "")
----
\* The token machine.  p: position, tokens, values, set / set by an exclusive sibling, "already counted" of multi
\* arguments, ignoring the rest, number of required arguments met; err / out end it.
P0(s, toks) == [i |-> 1, t |-> [j \in 1..Len(toks) |-> Chars(toks[j])], v |-> [j \in 1..Len(s.args) |-> IF Multi(s.args[j]) THEN <<>> ELSE <<s.args[j].dflt>>],
                set |-> [j \in 1..Len(s.args) |-> FALSE], xs |-> [j \in 1..Len(s.args) |-> FALSE], more |-> [j \in 1..Len(s.args) |-> FALSE],
                ign |-> FALSE, cnt |-> 0, end |-> "", what |-> "", who |-> ""]
Fail(p, who, what) == [p EXCEPT !.end = "error", !.who = who, !.what = what]
Matches(a, t) == (a.flag # "" /\ t = <<"-">> \o Chars(a.flag)) \/ t = <<"-", "-">> \o Chars(a.name)
CanCombine(s, a, t) == Starts(t, <<"-">>) /\ ~Starts(t, <<"-", "-">>) /\ a.flag # "" /\ a.flag # "-" /\ ~(\E i \in 1..Len(t) : t[i] = s.delim)
Hits(a, t) == {i \in 2..Len(t) : t[i] = a.flag}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* outcome of offering the token at p.i to argument j: [hit, p]
Visit(s, p, j) == IF j > s.nb THEN p ELSE
   IF s.args[j].name = "help" THEN [p EXCEPT !.end = "usage"] ELSE IF s.args[j].name = "version" THEN [p EXCEPT !.end = "version"] ELSE [p EXCEPT !.ign = TRUE]
Toggle(v) == IF v = <<"1">> THEN <<"0">> ELSE <<"1">>
No(p) == [hit |-> FALSE, p |-> p]
Yes(p) == [hit |-> TRUE, p |-> p]
OfferSwitch(s, p, j) == LET a == s.args[j] t == p.t[p.i] IN
   IF Matches(a, t) THEN (IF p.set[j] THEN No(Fail(p, Label(a), "Argument already set!")) ELSE Yes(Visit(s, [p EXCEPT !.set[j] = TRUE, !.v[j] = Toggle(@)], j)))
   ELSE IF CanCombine(s, a, t) /\ Hits(a, t) # {} THEN
        (IF p.set[j] \/ Cardinality(Hits(a, t)) > 1 THEN No(Fail(p, Label(a), "Argument already set!"))
         ELSE No(Visit(s, [p EXCEPT !.set[j] = TRUE, !.v[j] = Toggle(@), !.t[p.i][MinOf(Hits(a, t))] = Blank], j)))
   ELSE No(p)
CountV(v, n) == <<ToString(n + (CHOOSE k \in 0..200 : ToString(k) = v[1]))>>
OfferMSwitch(s, p, j) == LET a == s.args[j] t == p.t[p.i] IN
   IF Matches(a, t) THEN Yes([p EXCEPT !.set[j] = TRUE, !.v[j] = CountV(@, 1)])
   ELSE IF CanCombine(s, a, t) /\ Hits(a, t) # {} THEN No([p EXCEPT !.set[j] = TRUE, !.v[j] = CountV(@, Cardinality(Hits(a, t))), !.t[p.i] = [k \in 1..Len(t) |-> IF k \in Hits(a, t) THEN Blank ELSE t[k]]])
   ELSE No(p)
Bind(s, p, j, txt) == LET a == s.args[j] r == Read(a.type, txt) IN
   IF r.st = "fail" THEN Fail(p, Label(a), "Couldn't read argument value from string '" \o Str(txt) \o "'")
   ELSE IF r.st = "many" THEN Fail(p, Label(a), "More than one valid value parsed from string '" \o Str(txt) \o "'")
   ELSE IF a.allow # <<>> /\ ~(\E k \in 1..Len(a.allow) : a.allow[k] = r.v) THEN Fail(p, Label(a), "Value '" \o Str(txt) \o "' does not meet constraint: " \o TypeDesc(a))
   ELSE [p EXCEPT !.set[j] = TRUE, !.v[j] = IF Multi(a) THEN Append(@, r.v) ELSE <<r.v>>]
DelimAt(s, t) == LET D == {i \in 1..Len(t) : t[i] = s.delim} IN IF D = {} THEN 0 ELSE MinOf(D)
OfferValue(s, p, j) == LET a == s.args[j] t == p.t[p.i] d == DelimAt(s, t)
       fl == IF d > 2 THEN SubSeq(t, 1, d - 1) ELSE t
       vl == IF d > 2 THEN SubSeq(t, d + 1, Len(t)) ELSE <<>> IN
   IF HasBlank(t) \/ ~Matches(a, fl) THEN No(p)
   ELSE IF a.k = "value" /\ p.set[j] THEN No(Fail(p, Label(a), "Argument already set!"))
   ELSE IF s.delim # " " /\ vl = <<>> THEN No(Fail(p, Label(a), "Couldn't find delimiter for this argument!"))
   ELSE IF vl = <<>> THEN (IF p.i = Len(p.t) THEN No(Fail(p, Label(a), "Missing a value for this argument!")) ELSE Yes(Bind(s, [p EXCEPT !.i = @ + 1], j, p.t[p.i + 1])))
   ELSE Yes(Bind(s, p, j, vl))
OfferPlain(s, p, j) == LET a == s.args[j] t == p.t[p.i] IN
   IF HasBlank(t) \/ (a.k = "uval" /\ p.set[j]) THEN No(p) ELSE Yes(Bind(s, p, j, t))
Offer(s, p, j) == LET a == s.args[j] IN
   IF Labelled(a) /\ p.ign THEN No(p)
   ELSE CASE a.k = "switch" -> OfferSwitch(s, p, j) [] a.k = "mswitch" -> OfferMSwitch(s, p, j)
          [] a.k \in {"value", "multi"} -> OfferValue(s, p, j) [] OTHER -> OfferPlain(s, p, j)
XorOf(s, j) == {x \in 1..Len(s.xors) : \E k \in 1..Len(s.xors[x]) : s.xors[x][k] = j}
IsReq(s, p, j) == s.args[j].req /\ (Multi(s.args[j]) => Len(p.v[j]) <= 1)
\* an accepted argument counts towards the required ones; in an exclusive group it stands for the whole group
Count(s, p, j) == LET X == XorOf(s, j) a == s.args[j] IN
   IF X = {} THEN [p EXCEPT !.cnt = @ + (IF IsReq(s, p, j) THEN 1 ELSE 0)]
   ELSE LET g == s.xors[MinOf(X)] sib == {g[k] : k \in 1..Len(g)} \ {j} IN
        [p EXCEPT !.set = [k \in DOMAIN @ |-> @[k] \/ k \in sib], !.xs = [k \in DOMAIN @ |-> @[k] \/ k \in sib],
                  !.more[j] = IF Multi(a) THEN TRUE ELSE @, !.cnt = @ + (IF p.more[j] THEN 0 ELSE Len(g))]
IsSet(p, j) == p.set[j] /\ ~p.xs[j]
EmptyCombined(t) == t # <<>> /\ t[1] = "-" /\ \A i \in 2..Len(t) : t[i] = Blank
RECURSIVE Try(_, _, _), Go(_, _)
\* offer the token to the arguments from the n-th of the matching order on
Try(s, p, n) == IF n > Len(s.list) THEN (IF EmptyCombined(p.t[p.i]) \/ p.ign THEN p ELSE Fail(p, Str(p.t[p.i]), "Couldn't find match for argument"))
   ELSE LET r == Offer(s, p, s.list[n]) IN IF r.p.end # "" THEN r.p ELSE IF r.hit THEN Count(s, r.p, s.list[n])
        ELSE Try(s, IF ~IsSet(p, s.list[n]) /\ IsSet(r.p, s.list[n]) THEN Count(s, r.p, s.list[n]) ELSE r.p, n + 1)
Go(s, p) == IF p.end # "" THEN p
   ELSE IF p.i > Len(p.t) THEN (IF p.cnt < s.nreq THEN Fail(p, "undefined", "One or more required arguments missing!")
                                ELSE IF p.cnt > s.nreq THEN Fail(p, "undefined", "Too many arguments!") ELSE [p EXCEPT !.end = "ok"])
   ELSE Go(s, LET q == Try(s, p, 1) IN IF q.end # "" THEN q ELSE [q EXCEPT !.i = @ + 1])
Parse(s, toks) == Go(s, P0(s, toks))
----
\* What is printed.
Shown(q) == Str([i \in 1..Len(q) |-> IF q[i] = "\n" THEN "|" ELSE q[i]])
RECURSIVE Back(_, _, _), Blk(_, _, _, _, _), SkipSp(_, _, _)
\* largest n <= from with a break character at start + n (0-based, as in the text), or -1
Back(t, start, n) == IF n < 0 THEN -1 ELSE IF t[start + n + 1] \in {" ", ",", "|"} THEN n ELSE Back(t, start, n - 1)
SkipSp(t, st, len) == IF st < Len(t) /\ st + len < Len(t) /\ t[st + len + 1] = " " THEN SkipSp(t, st + 1, len) ELSE st
\* lines of at most `allowed` characters, broken after a space, comma or bar where there is one
Blk(t, start, indent, allowed, off) == IF start >= Len(t) THEN ""
   ELSE LET l0 == Min2(Len(t) - start, allowed)
            l1 == IF l0 = allowed THEN (IF start + l0 = Len(t) THEN Back(Append(t, "$"), start, l0) ELSE Back(t, start, l0)) ELSE l0
            l2 == IF l1 <= 0 THEN allowed ELSE l1
            lm == Min2(l2, Len(t) - start)
            nl == {i \in 1..lm : t[start + i] = "\n"}
            l3 == IF nl = {} THEN l2 ELSE MinOf(nl)          \* a line break in the text ends the line
            l == Min2(l3, Len(t) - start)
        IN Spaces(indent) \o Shown(SubSeq(t, start + 1, start + l)) \o "|" \o
           Blk(t, SkipSp(t, start, l3) + l3, IF start = 0 THEN indent + off ELSE indent, IF start = 0 THEN allowed - off ELSE allowed, off)
Wrap(str, indent, off) == LET t == Chars(str) IN IF Len(t) + indent > 75 THEN Blk(t, 0, indent, 75 - indent, off) ELSE Spaces(indent) \o Shown(t) \o "|"
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
Alone(s) == SelectSeq(s.list, LAMBDA j : XorOf(s, j) = {})
Group(s, g) == " {" \o JoinW([k \in 1..Len(g) |-> ShortID(s.args[g[k]], s.delim)], "|") \o "}"
ShortUsage(s) == Wrap(s.prog \o " " \o Cat([x \in 1..Len(s.xors) |-> Group(s, s.xors[x])]) \o Cat([k \in 1..Len(Alone(s)) |-> " " \o ShortID(s.args[Alone(s)[k]], s.delim)]),
                      3, Min2(Len(s.prog) + 2, 37))
Item(a) == Wrap(LongID(a), 3, 3) \o Wrap(Descr(a), 5, 0)
LongUsage(s) == Cat([x \in 1..Len(s.xors) |-> JoinW([k \in 1..Len(s.xors[x]) |-> Item(s.args[s.xors[x][k]])], Wrap("-- OR --", 9, 0)) \o "||"])
                \o Cat([k \in 1..Len(Alone(s)) |-> Item(s.args[Alone(s)[k]]) \o "|"]) \o "|" \o Wrap(s.msg, 3, 0)
Usage(s) == "|USAGE: ||" \o ShortUsage(s) \o "||Where: ||" \o LongUsage(s) \o "|"
ErrId(p) == IF p.who = "undefined" THEN " " ELSE "Argument: " \o p.who
Failure(s, p) == "PARSE ERROR: " \o ErrId(p) \o "|             " \o p.what \o "||" \o
   (IF s.help THEN "Brief USAGE: |" \o ShortUsage(s) \o "|For complete USAGE and HELP type: |   " \o s.prog \o " --help||" ELSE "")
\* The same as a DocBook document.
RECURSIVE Marked(_), Bare(_)
Marked(t) == IF t = "" THEN "" ELSE (CASE Ch(t, 1) = "&" -> "&amp;" [] Ch(t, 1) = "<" -> "&lt;" [] Ch(t, 1) = ">" -> "&gt;" [] Ch(t, 1) = "\n" -> "|" [] OTHER -> Ch(t, 1)) \o Marked(SubSeq(t, 2, Len(t)))
Bare(t) == IF t = "" THEN "" ELSE (IF Ch(t, 1) \in {"[", "]"} THEN "" ELSE Ch(t, 1)) \o Bare(SubSeq(t, 2, Len(t)))
DocShort(s, p, j) == LET a == s.args[j] IN "<arg choice='" \o (IF IsReq(s, p, j) THEN "req" ELSE "opt") \o "' repeat='" \o (IF Multi(a) THEN "repeat" ELSE "norepeat") \o "'>" \o Bare(Marked(ShortID(a, s.delim))) \o "</arg>|"
DocLong(a) == "<simplelist>|<member>|" \o Bare(Marked(LongID(a))) \o "|</member>|<member>|" \o Marked(Descr(a)) \o "|</member>|</simplelist>|"
DocUsage(s, p) == LET nm == Marked(s.prog) IN
  "<?xml version='1.0'?>|<!DOCTYPE book PUBLIC \"-//Norman Walsh//DTD DocBk XML V4.2//EN\"| \"http://www.oasis-open.org/docbook/xml/4.2/docbookx.dtd\">||<book>|<refentry>|<refmeta>|<refentrytitle>|" \o nm
  \o "|</refentrytitle>|<manvolnum>1</manvolnum>|</refmeta>|<refnamediv>|<refname>|" \o nm \o "|</refname>|</refnamediv>|<cmdsynopsis>|<command>" \o nm \o "</command>|"
  \o Cat([x \in 1..Len(s.xors) |-> "<group choice='req'>|" \o Cat([k \in 1..Len(s.xors[x]) |-> DocShort(s, p, s.xors[x][k])]) \o "</group>|"])
  \o Cat([k \in 1..Len(Alone(s)) |-> DocShort(s, p, Alone(s)[k])]) \o "</cmdsynopsis>|<refsect1>|<title>Description</title>|<para>|" \o Marked(s.msg)
  \o "|</para>|</refsect1>|<refsect1>|<title>Options</title>|<para>|<itemizedlist>|"
  \o Cat([x \in 1..Len(s.xors) |-> "<itemizedlist>|" \o JoinW([k \in 1..Len(s.xors[x]) |-> DocLong(s.args[s.xors[x][k]])], "<listitem>OR</listitem>|") \o "</itemizedlist>|"])
  \o Cat([k \in 1..Len(Alone(s)) |-> DocLong(s.args[Alone(s)[k]])])
  \o "</itemizedlist>|</para>|</refsect1>|<refsect1>|<title>Version</title>|<para>|" \o Marked(s.ver) \o "|</para>|</refsect1>|</refentry>|</book>|"
----
Show(s, p, j) == s.args[j].name \o "=" \o JoinW(p.v[j], ",") \o (IF IsSet(p, j) THEN "+" ELSE "-")
Values(s, p) == LET n == Len(s.args) - s.nb IN JoinW([k \in 1..n |-> Show(s, p, s.nb + k)], ";")
\* <<parse, full?, tokens>>: full answers carry everything that was printed
Answer(s, p, full) == CASE p.end = "ok" -> "ok;" \o Values(s, p)
   [] p.end = "usage" -> "exit0" \o (IF full THEN ":" \o (IF s.doc THEN DocUsage(s, p) ELSE Usage(s)) ELSE "")
   [] p.end = "version" -> "exit0" \o (IF full /\ s.doc THEN ":" \o s.ver \o "|" ELSE IF full THEN ":|" \o s.prog \o "  version: " \o s.ver \o "||" ELSE "")
   [] p.end = "error" -> "exit1:" \o (IF s.doc THEN p.who \o " -- " \o p.what \o "|" ELSE IF full THEN Failure(s, p) \o (IF s.help THEN "" ELSE Usage(s)) ELSE ErrId(p) \o ": " \o p.what)
Step(s, c) == CASE c[1] = "cmd" -> One(Begin(c), "ok")
   [] c[1] = "docbook" -> One([s EXCEPT !.doc = TRUE], "ok")      \* texts as DocBook from now on
   [] c[1] = "arg" -> Declare(s, c)
   [] c[1] = "add" -> LET j == s.nb + c[2] IN IF Clashes(s, s.args[j]) THEN One(s, ClashText(s.args[j])) ELSE One(Enlist(s, j), "ok")
   [] c[1] = "xor" -> AddAll([s EXCEPT !.xors = Append(@, [k \in 1..Len(c[2]) |-> s.nb + c[2][k]])], [k \in 1..Len(c[2]) |-> s.nb + c[2][k]])
   [] c[1] = "other" -> One(s, "ok")        \* another command line, with an optional positional argument, declared before
   [] c[1] = "earlier" -> One(s, "ok")      \* another command line of the process, parsed before: of no consequence
   [] c[1] = "parse" -> One(s, Answer(s, Parse(s, c[3]), c[2] = 1))
----
\* Properties of the model, over any bounded set of token lists: an accepted command line has exactly one member of every
\* exclusive group and every required argument, a rejected one names its reason, and nothing is set that was not given.
Accepted(s, p) == p.end = "ok" =>
   /\ \A x \in 1..Len(s.xors) : Cardinality({k \in 1..Len(s.xors[x]) : IsSet(p, s.xors[x][k])}) = 1
   /\ \A k \in 1..Len(s.list) : s.args[s.list[k]].req /\ XorOf(s, s.list[k]) = {} => p.set[s.list[k]]
   /\ \A k \in 1..Len(s.list) : LET j == s.list[k] IN ~p.set[j] => p.v[j] = IF Multi(s.args[j]) THEN <<>> ELSE <<s.args[j].dflt>>
Ended(p) == p.end \in {"ok", "usage", "version", "error"}
====
