from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_ipc/src/lib/*.cpp"]
WRAP = ["-pthread", "-lrt", "-Wl," + ",".join("--wrap=" + f for f in ("clock_gettime", "sem_open", "sem_wait", "sem_timedwait", "sem_clockwait", "mmap", "ftruncate", "shm_open"))]


def run(k):
    dbg, rel = k.builds([("ipc", SRC, dict(flags=WRAP)), ("ipc", SRC, dict(flags=WRAP + ["-DNDEBUG"], opt="-O2", out="ipc_rel"))])
    cmds = r"""{<<o, p, 0>> : o \in {"mopen", "mclose", "munlink", "mget"}, p \in 0..2} \cup {<<"mset", p, 0, 0, 20 + p>> : p \in 0..1} \cup {<<"has", 0, 0>>} \cup {<<"res", p, 0>> : p \in 0..1} \cup {<<"mopen", 1, 0, f, e>> : f \in {"mmap", "ftruncate", "shm_open"}, e \in {"ENOMEM", "EACCES"}}"""
    defs = "ManagedInv == Managed(s)"
    e = k.mc("SharedMemoryS", defs, cmds="{c \\in (%s) : Cardinality(Step(s, c)) = 1}" % cmds, invariants=["ManagedInv"], constraint="(\\A o \\in 4..O : s.mem[o] = <<0, 0>>)" if not k.thorough else None)
    k.replay(dbg, e, "every situation of three processes", maxlen=60)
    k.replay(rel, e, "every situation of three processes, release build", maxlen=60)
    r = k.rng; EN = ["EACCES", "EMFILE", "ENFILE", "ENOENT", "EINVAL", "ENAMETOOLONG", "ENOSYS", "ENOMEM", "EAGAIN", "EBADF", "ENODEV", "EPERM", "EIO", "EINTR"]

    def script(n):
        out = []; h = {}; name = set()
        for _ in range(n):
            p = r.randrange(4); m = r.randrange(2)
            if (p, m) not in h:
                if r.random() < .3: out.append(["mopen", p, m, r.choice(["mmap", "ftruncate", "shm_open"]), r.choice(EN)])
                else: out.append(["mopen", p, m]); h[p, m] = m not in name; name.add(m)
                continue
            x = r.choice(["mget"] * 3 + ["mset"] * 4 + ["mclose", "mclose", "munlink", "has", "res"])
            if x == "munlink":
                if not h[p, m]: continue
                h[p, m] = False; name.discard(m)
            if x == "mclose":
                if h[p, m]: name.discard(m)
                del h[p, m]
            out.append([x, p, m, r.randrange(2), r.randrange(-1000, 1000)] if x == "mset" else [x, 0 if x == "has" else p, m])
        return out
    n = 200 if k.thorough else 60
    k.validate("SharedMemoryS", dbg, [script(60) for _ in range(n)], "random histories of four processes", chunks=4)
    k.validate("SharedMemoryS", rel, [script(60) for _ in range(n)], "random histories of four processes, release build", chunks=4)
    k.assumptions += ["one type per name; only whoever created a memory takes its name away; two processes do not connect in the very moment of creation"]
