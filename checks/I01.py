from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_ipc/src/lib/*.cpp"]
WRAP = ["-pthread", "-lrt", "-Wl," + ",".join("--wrap=" + f for f in ("clock_gettime", "sem_open", "sem_wait", "sem_timedwait", "sem_clockwait", "mmap", "ftruncate", "shm_open"))]


def run(k):
    dbg, rel = k.builds([("ipc", SRC, dict(flags=WRAP)), ("ipc", SRC, dict(flags=WRAP + ["-DNDEBUG"], opt="-O2", out="ipc_rel"))])
    np = 3 if k.thorough else 2
    cmds = r"""{c \in ({<<o, p, 0>> : o \in {"open", "close", "lock", "try", "unlock"}, p \in 0..%d} \cup {<<"timed", p, 0, t>> : p \in 0..%d, t \in {2, 60000}} \cup {<<"timed", 0, 0, 0>>, <<"timed", 0, 0, -3>>, <<"has", 1, 0>>} \cup {<<"sig", p>> : p \in 0..%d}) : Cardinality(Step(s, c)) = 1}""" % (np - 1, np - 1, np - 1)
    defs = "TypeInv == TypeOK(s)\nCreatorInv == Creator(s)"
    e = k.mc("SemaphoreS", defs, cmds=cmds, invariants=["TypeInv", "CreatorInv"])
    k.replay(dbg, e, "every situation of %d processes" % np, maxlen=60)
    e = k.mc("SemaphoreS", defs, cmds=cmds, init="[Init0 EXCEPT !.dbg = 0]", tag="release")
    k.replay(rel, e, "every situation of %d processes, release build" % np, maxlen=60)
    r = k.rng

    def script(n):
        out = []; h = {}; w = set()   # who has which name open (enough to keep commands possible most of the time)
        name = {}; free = {}; ids = [0]; wait = {}
        for _ in range(n):
            p = r.randrange(4); m = r.randrange(2)
            if p in wait:
                if r.random() < .3:
                    out.append(["sig", p])
                    if wait[p][1] == 2: del wait[p]
                continue
            if (p, m) not in h:
                if r.random() < .7:
                    if m not in name: ids[0] += 1; name[m] = ids[0]; free[ids[0]] = True; h[p, m] = (ids[0], True)
                    else: h[p, m] = (name[m], False)
                    out.append(["open", p, m])
                continue
            o, cr = h[p, m]; x = r.choice(["lock"] * 4 + ["try", "timed", "wait"] + ["unlock"] * 5 + ["close", "has", "bare"])
            if x == "close":
                del h[p, m]; out.append([x, p, m])
                if cr: del name[m]
            elif x == "has": out.append([x, 1, m])
            elif x == "bare": out.append([x, p])
            elif x == "unlock":
                out.append([x, p, m]); ws = [q for q in wait if wait[q][0] == o]
                if len(ws) > 1: break      # any of them may go on: the history ends here
                if ws: del wait[ws[0]]
                else: free[o] = True
            else:
                out.append(["timed", p, m, 60000] if x == "wait" else ["timed", p, m, r.choice([0, 1, 4, -1, 995])] if x == "timed" else [x, p, m])
                if free[o]: free[o] = False
                elif x in ("lock", "wait"): wait[p] = (o, 1 if x == "lock" else 2)
        return out
    n = 120 if k.thorough else 40
    k.validate("SemaphoreS", dbg, [[["mode", 1]] + script(80) for _ in range(n)], "random histories of four processes", chunks=4)
    k.validate("SemaphoreS", rel, [[["mode", 0]] + script(80) for _ in range(n)], "random histories of four processes, release build", chunks=4)
    m = 20000 if k.thorough else 4000
    G = 10 ** 9
    dl = [["deadline", a, b, d, m] for a in (5, 1700000000) for b in (0, 1, G // 2, G - 1) for d, m in ((0, 0), (0, 1), (0, G - 1), (1, 1), (3, G // 2), (70, G - 2), (0, -1), (-2, -1), (-1, 1 - G))] + [["deadline", r.randrange(10 ** 9), r.randrange(G), r.randrange(100), r.randrange(G)] for _ in range(100)]
    br = [["broken", "sem_open", e] for e in (13, 17, 2, 12, 22, 23, 24, 36, 95)], [["broken", "timed", e] for e in (4, 11, 22, 95)]
    for exe, w, b in ((dbg, "", br[0] + br[1]), (rel, ", release build", br[1])): k.validate("SemaphoreS", exe, [[["mode", 0 if w else 1]] + dl, [["mode", 0 if w else 1]] + b], "deadlines and failing calls" + w, chunks=1)
    for exe, w in ((dbg, ""), (rel, ", release build")): k.validate("SemaphoreS", exe, [[["turns", t, m]] for t in (2, 3, 4, 4)] + [[["meet", 200 if k.thorough else 60]]], "processes at full speed" + w, chunks=1)
    k.assumptions += ["a semaphore's creator outlives its users' first connection or its name is free again: processes that die without letting go are not followed"]
