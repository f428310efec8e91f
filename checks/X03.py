from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_threads/src/lib/mutex_pos.cpp", "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/detail/character_buffer.cpp",
       "ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp", "ecl_streams/src/lib/*.cpp", "ecl_converters/src/lib/*.cpp"]
F = ["-DVERIF_VIRTUAL_TIME", "-DECL_HAS_RT_TIMERS", "-DECL_HAS_TIMESTAMP", "-Wl," + ",".join("--wrap=" + f for f in ("open", "fdopen", "fwrite", "fputc", "fflush", "fclose"))]


def run(k):
    dbg, rel = k.builds([("filestream", SRC, dict(flags=F, san="address,undefined")), ("filestream", SRC, dict(flags=F + ["-DNDEBUG"], out="filestream_rel"))])
    cmds = r"""{c \in UNION {{<<"new", i>>, <<"open", i, "a", 0>>, <<"FLUSH", i>>, <<"on", i, 1, "W">>, <<"off", i, 1>>, <<"log", i, 1, "x">>, <<"log0", i, 2, "y">>} : i \in 0..1}
      \cup {<<"make", 0, "a", m>> : m \in 0..2} \cup {<<"make", 0, "dir", 0>>, <<"hdr", 0, 0>>, <<"stamp", 0, 0>>, <<"hdr", 0, 1>>, <<"stamp", 0, 1>>, <<"on0", 0, 1>>, <<"any", 0>>, <<"is", 0, 1>>, <<"look", "a">>, <<"fds">>, <<"tick", 12, 34>>, <<"isopen", 0>>} : Cardinality(Step(s, c)) = 1}"""
    e = k.mc("FileStreamS", "", cmds=cmds, constraint="(\\A i \\in 0..1 : Len(s.f[i].buf) <= 30) /\\ TLCGet(\"level\") <= %d" % (5 if k.thorough else 4), tag="log")
    k.replay(dbg, e, "log streams", maxlen=400, limit=None if k.thorough else 8000)
    cmds = r"""{c \in UNION {{<<"new", i>>, <<"flush", i>>, <<"say", i, 0, "ab">>, <<"say", i, 3, "-12">>, <<"isopen", i>>} \cup {<<op, i, n, m>> : op \in {"open", "make"}, n \in {IF i = 3 THEN "p" ELSE "a", "dir"}, m \in 0..1} : i \in 2..3}
      \cup {<<"look", "a">>, <<"look", "p">>, <<"fds">>} : Cardinality(Step(s, c)) = 1}"""
    e = k.mc("FileStreamS", "", cmds=cmds, constraint="TLCGet(\"level\") <= %d" % (5 if k.thorough else 4), tag="file")
    k.replay(dbg, e, "file streams", maxlen=400, limit=None if k.thorough else 8000)
    r = k.rng

    def script(n, d):
        out = []; at = [""] * 4; held = [0] * 4; modes = [{}, {}]
        for _ in range(n):
            o = r.choice(["open", "open", "log", "log", "log", "log", "log0", "say", "say", "FLUSH", "flush", "set", "set", "set", "ask", "look", "fds", "tick", "new"])
            i = r.randrange(4); j = r.randrange(2); m = r.randrange(3); t = "".join(r.choice("abc :.[]0-;") for _ in range(r.choice([1, 2, 5, 40])))
            if o == "open":
                nm = r.choice(["p", "q"] if i == 3 else ["a", "b", "b"] if r.random() < .9 else ["dir", "no/file"]); w = r.choice(["open", "make"]); out.append([w, i, nm, r.randrange(3 if w == "make" else 2)])
                if w == "make" and i < 2: modes[i] = {}
                at[i] = "" if nm in ("dir", "no/file") else nm; held[i] = 0
            elif o in ("log", "log0"):
                if not at[j] and (not d and (o == "log0" or m in modes[j])): continue
                if held[j] > 3000: out.append(["flush", j]); held[j] = 0
                out.append([o, j, m, t]); held[j] += 100 if at[j] else 0
            elif o == "say":
                if not at[i] and not d: continue
                if held[i] > 3000: out.append(["flush", i]); held[i] = 0
                w = r.randrange(4); out.append([o, i, w, t[0] if w == 2 else str(r.choice([0, 1, -1, 2147483647, -2147483648])) if w == 3 else t]); held[i] += 50 if at[i] else 0
            elif o == "FLUSH":
                if at[j] or d or not modes[j]: out.append([o, j]); held[j] = 0 if modes[j] else held[j]
            elif o == "flush":
                if at[i] or d: out.append([o, i]); held[i] = 0
            elif o == "set":
                q = r.choice(["on", "on", "on0", "off", "hdr", "stamp"])
                out.append([q, j, m, r.choice(["WARN", "E", "D d", "E"])] if q == "on" else [q, j, m] if q in ("on0", "off") else [q, j, r.randrange(2)])
                if q in ("on", "on0"): modes[j][m] = 1
                if q == "off": modes[j].pop(m, 0)
            elif o == "ask": out.append(r.choice([["any", j], ["is", j, m], ["isopen", i]]))
            elif o == "look":
                nm = r.choice("abpq")
                for x in range(4):
                    if at[x] == nm: out.append(["new", x]); at[x] = ""; held[x] = 0; (x < 2) and modes[x].clear()
                out.append([o, nm])
            elif o == "new": out.append([o, i]); at[i] = ""; held[i] = 0; (i < 2) and modes[i].clear()
            elif o == "tick": out.append([o, r.choice([0, 1, 59, 12345, 2147483647]), r.choice([0, 1, 9, 10, 99, 100, 12345, 99999999, 100000000, 999999999])])
            else: out.append([o])
        return out
    def story(d):  # switches toggled on one open stream, each state written and read back
        out = []
        for _ in range(6):
            out += [["make", 0, "a", r.randrange(3)], ["on", 0, 1, "W"], ["on", 0, 2, "E"]]; on = {1, 2}
            for _ in range(r.randrange(1, 5)):
                q = r.choice(["hdr", "hdr", "stamp", "on0", "off", "on"]); m = r.randrange(3)
                out.append([q, 0, r.randrange(2)] if q in ("hdr", "stamp") else [q, 0, m, "X"] if q == "on" else [q, 0, m])
                if q in ("on", "on0"): on.add(m)
                if q == "off": on.discard(m)
                if r.random() < .5: out.append(["tick", r.randrange(100), r.randrange(1000000000)])
                if on: out += [[r.choice(["log", "log", "log0"]), 0, r.choice(sorted(on)), "x"]]
            out += [["new", 0], ["look", "a"]]
        return out
    n = 200 if k.thorough else 40
    for b, d, w in ((dbg, 1, ""), (rel, 0, ", release build")): k.validate("FileStreamS", b, [[["mode", d]] + story(d) for _ in range(n)], "switches and what is written" + w, chunks=4)
    k.validate("FileStreamS", dbg, [[["mode", 1]] + script(100, 1) for _ in range(n)], "random histories", chunks=4)
    k.validate("FileStreamS", rel, [[["mode", 0]] + script(100, 0) for _ in range(n)], "random histories, release build", chunks=4)
    k.validate("FileStreamS", rel, [[["race", t, 400]] for t in (2, 3, 6)] * (10 if k.thorough else 2), "threads logging to one file", chunks=1)
