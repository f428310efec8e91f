from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_threads/src/lib/priority_pos.cpp"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("setpriority", "getpriority", "sched_setscheduler", "sched_getscheduler", "sched_getparam"))]


def run(k):
    dbg, rel = k.builds([("priority", SRC, dict(flags=WRAP)), ("priority", SRC, dict(flags=WRAP + ["-DNDEBUG"], opt="-O2", out="priority_rel"))])
    cmds = r"""{c \in {<<"get">>, <<"sys">>, <<"diag">>} \cup {<<"set", p>> : p \in 0..10} \cup {<<"host", p, n>> : p \in {"rr", "fifo"}, n \in {1, 10, 11, 50, 99}} \cup {<<"host", p, n>> : p \in {"other", "batch", "idle"}, n \in {-20, -10, -3, 0, 5, 10, 18, 19}} \cup {<<"set", p, a, e>> : p \in 2..10, a \in {"nice", "sched"}, e \in {"EPERM", "EACCES", "EINVAL", "ESRCH", "ENOMEM"}} \cup {<<"get", a, e>> : a \in {"query", "param"}, e \in {"EPERM", "EINVAL", "ESRCH"}} \cup {<<"rt", n>> : n \in {-1, 0, 1, 2, 9, 10, 11, 19, 20, 21, 29, 30, 31, 98, 99, 100}} \cup {<<"rt", 5, "sched", "EPERM">>} : Cardinality(Step(s, c)) = 1}"""
    for exe, d, w in ((dbg, 1, ""), (rel, 0, ", release build")):
        e = k.mc("PriorityS", "", cmds=cmds, init="[Init0 EXCEPT !.dbg = %d]" % d, tag="p%d" % d)
        k.replay(exe, e, "every priority and failure" + w, maxlen=300)
