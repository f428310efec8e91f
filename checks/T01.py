from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_threads/src/lib/mutex_pos.cpp"]
WRAP = ["-pthread", "-Wl," + ",".join("--wrap=" + f for f in ("clock_gettime", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutex_init", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_lock", "pthread_mutex_timedlock", "pthread_mutex_clocklock"))]


def run(k):
    dbg, rel = k.builds([("mutex", SRC, dict(flags=WRAP)), ("mutex", SRC, dict(flags=WRAP + ["-DNDEBUG"], opt="-O2", out="mutex_rel"))])
    cmds = r"""{c \in {<<"lock">>, <<"try">>, <<"timed", 3>>, <<"timed", 60000>>, <<"timed", 0>>, <<"timed", -2>>, <<"unlock">>, <<"relock">>, <<"retry">>, <<"retimed", 2>>, <<"steal">>, <<"locks">>, <<"made", 0>>, <<"made", 1>>} : Cardinality(Step(s, c)) = 1}"""
    e = k.mc("MutexS", "TypeOK == s.held = 1 \\/ s.wait + s.twait = 0", cmds=cmds, invariants=["TypeOK"])
    k.replay(dbg, e, "every situation", maxlen=60)
    e = k.mc("MutexS", "", cmds=cmds, init="[Init0 EXCEPT !.dbg = 0]", tag="release")
    k.replay(rel, e, "every situation, release build", maxlen=60)
    r = k.rng

    def script(n, d):
        out = []; held = w = 0
        for _ in range(n):
            o = r.choice(["lock"] * 4 + ["try", "timed", "wait"] + ["unlock"] * 4 + ["locks"] * 2 + ["relock", "retry", "retimed", "steal"])
            if o in ("lock", "try", "timed", "wait", "steal"):
                if held + w >= 4: continue
                if o == "steal":
                    if d: out.append([o])
                    continue
                out.append(["timed", 60000] if o == "wait" else ["timed", r.choice([0, 1, 4, -1])] if o == "timed" else [o])
                if not held: held = 1
                elif o in ("lock", "wait"): w += 1
            elif o == "unlock":
                if held: out.append([o]); held = 1 if w else 0; w = max(0, w - 1)
            elif o == "locks": out.append([o])
            elif held and (d or o != "relock"): out.append(["retimed", 2] if o == "retimed" else [o])
        return out
    n = 120 if k.thorough else 30
    k.validate("MutexS", dbg, [[["mode", 1]] + script(60, 1) for _ in range(n)], "random histories of four threads", chunks=4)
    k.validate("MutexS", rel, [[["mode", 0]] + script(60, 0) for _ in range(n)], "random histories of four threads, release build", chunks=4)
    G = 10 ** 9
    dl = [["deadline", a, b, d, m] for a in (5, 1700000000) for b in (0, 1, G // 2, G - 1) for d, m in ((0, 0), (0, 1), (0, G - 1), (1, 1), (3, G // 2), (70, G - 2), (0, -1), (-2, -1), (-1, 1 - G))] + [["deadline", r.randrange(10 ** 9), r.randrange(G), r.randrange(100), r.randrange(G)] for _ in range(100)]
    for exe, w in ((dbg, ""), (rel, ", release build")): k.validate("MutexS", exe, [dl], "deadlines" + w, chunks=1)
    k.validate("MutexS", dbg, [[["broken", w, e] for w in ("attr", "type", "init", "lock", "try", "timed", "unlock") for e in (1, 11, 12, 16, 22, 35, 95) if not (w == "try" and e == 16)]], "failing calls", chunks=1)
    for exe, w in ((dbg, ""), (rel, ", release build")): k.validate("MutexS", exe, [[["race", t, 200000 if k.thorough else 40000]] for t in (2, 4, 8, 8)], "threads at full speed" + w, chunks=1)
