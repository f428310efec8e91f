from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_threads/src/lib/*_pos.cpp", "ecl_time/src/lib/*.cpp"]
WRAP = ["-pthread", "-Wl," + ",".join("--wrap=" + f for f in ("pthread_create", "pthread_join", "pthread_detach", "pthread_cancel", "setpriority"))]


def run(k):
    dbg, rel = k.builds([("thread", SRC, dict(flags=WRAP, san="undefined")), ("thread", SRC, dict(flags=WRAP + ["-DNDEBUG"], opt="-O2", san="undefined", out="thread_rel"))])
    cmds = r"""{c \in {<<op, 0>> : op \in {"new", "running", "finish", "join", "joinw", "self", "orphan"}} \cup {<<"cancel", 0, 1>>, <<"stat">>, <<"startbad", 0, 2, "EAGAIN">>, <<"makebad", 0, 3, "EPERM">>, <<"start", 0, 4, 0, 1>>} \cup {<<op, 0, kd, 0, -1>> : op \in {"start", "make"}, kd \in 0..4} : Cardinality(Step(s, c)) = 1}"""
    for exe, d, w in ((dbg, 1, ""), (rel, 0, ", release build")):
        c = cmds if d else cmds.replace('<<"start", 0, 4, 0, 1>>', '<<"start", 0, 4, 6, 1048576>>')
        e = k.mc("ThreadS", "", cmds=c, init="[Init0 EXCEPT !.dbg = %d]" % d, constraint="(Len(s.orphan) <= 1 /\\ s.done <= 2) /\\ TLCGet(\"level\") <= %d" % (6 if k.thorough else 4), tag="one%d" % d)
        k.replay(exe, e, "one thread" + w, maxlen=100)
        e = k.mc("ThreadS", "", cmds=r"""{c \in UNION {{<<"jstart", i, 0>>, <<"jstart", i, 3>>, <<"jstart", i, 0, "EAGAIN">>, <<"jrunning", i>>, <<"jfinish", i>>} : i \in 0..1} \cup {<<"stat">>} : Cardinality(Step(s, c)) = 1}""", init="[Init0 EXCEPT !.dbg = %d]" % d, constraint="s.done <= 3", tag="job%d" % d)
        k.replay(exe, e, "threadables" + w, maxlen=100)
    r = k.rng

    def script(n, d):
        out = []; st = ["new", "new"]; j = [0, 0]; orph = 0
        for _ in range(n):
            i = r.randrange(2); o = r.choice(["start", "start", "make", "new", "bad", "running", "running", "finish", "finish", "orphan", "cancel", "join", "join", "joinw", "self", "stat", "jstart", "jfinish", "jrunning"])
            if o in ("start", "make"):
                if o == "make" and st[i] == "run": orph += 1
                if o == "make": st[i] = "new"
                sz = r.choice([-1, -1, 65536, 1048576]); out.append([o, i, r.randrange(5), r.choice([0, 0, 1, 2, 3, 4, 5, 6]), sz]); st[i] = "run" if st[i] == "new" else st[i]
            elif o == "new": out.append([o, i]); orph += st[i] == "run"; st[i] = "new"
            elif o == "bad":
                b = r.choice(["startbad", "makebad"]); out.append([b, i, r.randrange(5), r.choice(["EAGAIN", "EPERM", "EINVAL", "ENOMEM"])])
                if b == "makebad": orph += st[i] == "run"; st[i] = "new"
            elif o == "finish":
                if st[i] == "run": out.append([o, i]); st[i] = "end"
            elif o == "orphan":
                if orph: out.append([o, 0]); orph -= 1
            elif o == "cancel": out.append([o, i, 1]); st[i] = "asked" if st[i] == "run" else st[i]
            elif o == "join":
                if st[i] != "run": out.append([o, i]); st[i] = "joined" if st[i] != "new" else "new"
            elif o == "joinw":
                if st[i] == "run": out.append([o, i]); st[i] = "joined"
            elif o == "self":
                if st[i] == "run": out.append([o, i])
            elif o == "jstart": x = r.random() < .2; out.append([o, i, r.choice([0, 2, 6])] + (["EAGAIN"] if x else [])); j[i] = j[i] if x else 1
            elif o == "jfinish":
                if j[i]: out.append([o, i]); j[i] = 0
            else: out.append([o, i] if o != "stat" else [o])
        return out
    n = 120 if k.thorough else 30
    k.validate("ThreadS", dbg, [[["mode", 1]] + script(60, 1) for _ in range(n)], "random histories", chunks=4)
    k.validate("ThreadS", rel, [[["mode", 0]] + script(60, 0) for _ in range(n)], "random histories, release build", chunks=4)
