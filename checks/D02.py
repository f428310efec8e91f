from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_threads/src/lib/mutex_pos.cpp", "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/detail/character_buffer.cpp",
       "ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("open", "fdopen", "fwrite", "fputc", "fflush", "fclose"))]
NAMES = ["a", "a", "a", "b", "b", "dir/e", "dir", "no/file", "plain/file", "loop", "long"]


def run(k):
    dbg, rel = k.builds([("sharedfile", SRC, dict(flags=WRAP, san="address,undefined")), ("sharedfile", SRC, dict(flags=WRAP + ["-DNDEBUG"], san="", opt="-O2", out="sharedfile_rel"))])
    cmds = r"""{c \in UNION {{<<"new", i>>, <<"endbad", i>>, <<"isopen", i>>, <<"count", i>>, <<"w", i, 0, "x", 1>>, <<"w", i, 1, "z", 0>>, <<"w", i, 1, "y", 4095>>, <<"flush", i>>, <<"open", i, "a", 0>>, <<"open", i, "dir", 0>>, <<"make", i, "a", 1>>} : i \in 0..1}
      \cup {<<"make", 0, "no/file", 0>>, <<"open", 0, "b", 1>>, <<"look", "a">>, <<"fds">>} : Cardinality(Step(s, c)) = 1}"""
    small = 'Len(s.f[0].buf) + Len(s.f[1].buf) <= 2 /\\ (\\A n \\in DOMAIN s.file : Len(s.file[n]) <= 2) /\\ TLCGet("level") <= %d' % (5 if k.thorough else 4)
    e = k.mc("SharedFileS", "", cmds=cmds, constraint=small)
    k.replay(dbg, e, "two instances and two files", maxlen=400)
    r = k.rng

    def script(n):
        out = []; at = ["", "", ""]
        for _ in range(n):
            i = r.randrange(3); o = r.choice(["open", "open", "w", "w", "w", "w", "w", "flush", "flush", "look", "new", "bad", "isopen", "fds", "count", "count"])
            if o == "open": m = r.choice(NAMES); out.append([r.choice(["open", "make"]), i, m, r.randrange(2)]); at[i] = m if m in ("a", "b", "dir/e") else ""
            elif o == "w": n = r.choice([0, 1, 1, 2, 3, 10, 4095, 4096, 4097, 10000]); out.append([o, i, r.randrange(2) if n == 1 else 1, r.choice("xyz"), n])
            elif o == "look":
                m = r.choice(["a", "b", "dir/e"])
                if m not in at or r.random() < .3:
                    for j in range(3):
                        if at[j] == m: out.append(["new", j]); at[j] = ""
                    out.append([o, m])
            elif o == "bad":
                b = r.choice(["wbad", "wbad", "flushbad", "endbad"])
                if b == "wbad": n = r.choice([1, 1, 3, 4096, 9000]); out.append([b, i, r.randrange(2) if n == 1 else 1, "q", n])
                else:
                    out.append([b, i])
                    if b == "endbad": at[i] = ""
            elif o == "new": out.append([o, i]); at[i] = ""
            else: out.append([o] if o == "fds" else [o, i])
        for j in range(3): out.append(["new", j])
        return out + [["look", m] for m in ("a", "b", "dir/e")] + [["fds"]]
    n = 200 if k.thorough else 40
    k.validate("SharedFileS", dbg, [[["mode", 1]] + script(100) for _ in range(n)], "random histories of three instances", chunks=4)
    k.validate("SharedFileS", rel, [[["mode", 0]] + script(100) for _ in range(n)], "random histories of three instances, release build", chunks=4)
    k.validate("SharedFileS", rel, [[["mode", 0]] + [["race", t, rounds, size, ro] for t in (2, 8) for rounds, size in ((200, 10), (40, 4000), (20, 3000)) for ro in (0, 1)] for _ in range(20 if k.thorough else 2)], "instances in threads", chunks=1)
