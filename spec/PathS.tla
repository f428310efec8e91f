---- MODULE PathS ----
\* A tree of directories, files and symbolic links, and what a path in it stands for.
\* A path is a sequence of names from the top of the tree; texts of paths are sequences of the parts between the slashes.
EXTENDS Util
Dir == [k |-> "d"]  File == [k |-> "f"]
Init0 == [e |-> [p \in {<<>>} |-> Dir], cwd |-> <<>>, shut |-> {}, fault |-> ""]
Put(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
Del(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
Up(p) == SubSeq(p, 1, Len(p) - 1)
\* what is left of `parts`, seen from `at`; n links were followed; nobody: not the superuser.  A set of <<"ok", path>> or <<flag>>:
\* whether a directory that may not be searched is noticed when nothing in it is looked up (d/, d/., d/..) is left open
RECURSIVE Walk(_, _, _, _, _)
Walk(s, at, parts, n, nobody) ==
  IF parts = <<>> THEN {<<"ok", at>>}
  ELSE LET h == Head(parts)  t == Tail(parts) IN
  IF s.e[at].k # "d" THEN {<<"InvalidObject">>}
  ELSE IF h \in {"", ".", ".."} THEN (IF h = ".." /\ at = <<>> THEN {<<"above">>} ELSE Walk(s, IF h = ".." THEN Up(at) ELSE at, t, n, nobody)) \cup (IF nobody /\ at \in s.shut THEN {<<"Permissions">>} ELSE {})
  ELSE IF nobody /\ at \in s.shut THEN {<<"Permissions">>}
  ELSE IF h = "long" THEN {<<"InvalidArg">>}
  ELSE IF at \o <<h>> \notin DOMAIN s.e THEN {<<"NotFound">>}
  ELSE LET x == s.e[at \o <<h>>] IN
       IF x.k = "l" THEN (IF n >= 40 THEN {<<"InvalidObject">>} ELSE Walk(s, IF x.abs = 1 THEN <<>> ELSE at, x.t \o t, n + 1, nobody))
       ELSE Walk(s, at \o <<h>>, t, n, nobody)
Real(s, abs, parts, nobody) == (IF parts = <<"">> /\ abs = 0 THEN {<<"NotFound">>} ELSE Walk(s, IF abs = 1 THEN <<>> ELSE s.cwd, parts, 0, nobody))
  \* below a directory that may not be searched
  \cup (IF abs = 0 /\ nobody /\ \E i \in 0..Len(s.cwd) : SubSeq(s.cwd, 1, i) \in s.shut THEN {<<"Permissions">>} ELSE {})
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN "" ELSE "/" \o p[1] \o Text(Tail(p))
Of == [EACCES |-> "Permissions", EINVAL |-> "InvalidArg", EIO |-> "Read", ELOOP |-> "InvalidObject", ENAMETOOLONG |-> "InvalidArg", ENOENT |-> "NotFound", ENOTDIR |-> "InvalidObject", ENOMEM |-> "Unknown"]
\* a failing call leaves the text it was to write alone, and nothing behind
Fail(s, f) == One([s EXCEPT !.fault = ""], f \o "|kept")
Free(s, p) == p # <<>> /\ p \notin DOMAIN s.e /\ Up(p) \in DOMAIN s.e /\ s.e[Up(p)].k = "d"
Step(s, c) ==
  LET op == c[1] IN
  CASE op = "mkdir" -> IF Free(s, c[2]) THEN One([s EXCEPT !.e = Put(s.e, c[2], Dir)], "ok") ELSE {}
    [] op = "touch" -> IF Free(s, c[2]) THEN One([s EXCEPT !.e = Put(s.e, c[2], File)], "ok") ELSE {}
    [] op = "link" -> IF Free(s, c[2]) /\ (c[3] = 1 \/ c[4][1] # "") THEN One([s EXCEPT !.e = Put(s.e, c[2], [k |-> "l", abs |-> c[3], t |-> c[4]])], "ok") ELSE {}     \* <<link, path, absolute?, parts>>
    [] op = "rm" -> IF c[2] # <<>> /\ c[2] # s.cwd /\ c[2] \in DOMAIN s.e /\ ~\E q \in DOMAIN s.e : Len(q) > Len(c[2]) /\ SubSeq(q, 1, Len(c[2])) = c[2] THEN One([s EXCEPT !.e = Del(s.e, c[2]), !.shut = @ \ {c[2]}], "ok") ELSE {}
    [] op = "cd" -> IF c[2] \in DOMAIN s.e /\ s.e[c[2]].k = "d" THEN One([s EXCEPT !.cwd = c[2]], "ok") ELSE {}
    [] op = "shut" -> IF c[2] \in DOMAIN s.e /\ c[2] # <<>> /\ s.e[c[2]].k = "d" THEN One([s EXCEPT !.shut = IF c[3] = 1 THEN @ \cup {c[2]} ELSE @ \ {c[2]}], "ok") ELSE {}
    [] op = "fault" -> One([s EXCEPT !.fault = c[2]], "ok")                        \* the next call fails like this
    \* <<real, absolute?, parts, nobody?>>; "sure": only where one answer is right
    [] op \in {"real", "sure"} -> IF c[2] = 0 /\ Len(c[3]) > 1 /\ c[3][1] = "" THEN {} ELSE IF s.fault # "" THEN Fail(s, Of[s.fault])
                      ELSE LET w == Real(s, c[2], c[3], c[4] = 1) IN
                      IF <<"above">> \in w \/ (op = "sure" /\ Cardinality(w) > 1) THEN {}
                      ELSE UNION {IF r[1] # "ok" THEN Fail(s, r[1]) ELSE One(s, "No|/" \o Text(r[2])) : r \in w}
    [] OTHER -> {}
====
