from vlib import *
D = "ecl_devices/src/lib/"
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_converters/src/lib/*.cpp", "ecl_streams/src/lib/manipulators.cpp"] + [D + x for x in ("serial_pos.cpp", "socket_client_pos.cpp", "socket_server_pos.cpp", "console.cpp", "detail/error_handler.cpp", "detail/exception_handler_pos.cpp", "detail/socket_exception_handler_pos.cpp", "detail/character_buffer.cpp")]
FLAGS = ["-DECL_HAS_RT_TIMERS", "-DECL_HAS_TIMESTAMP", "-Wl,--wrap=tcsetattr"]


def history(r, n, shut=True):
    out = []; q = {e: "" for e in range(7)}; on = {e: e > 3 for e in range(7)}; link = False
    word = lambda: "".join(r.choice("abcXYZ09.,;%-[]") for _ in range(r.choice([1, 1, 2, 3, 7, 40])))
    for _ in range(n):
        o = r.choice(["serial", "sockets", "put", "put", "put", "put", "get", "get", "get", "get", "feed", "feed", "look", "look", "isopen", "line", "close"])
        if o == "serial":
            if on[0] and r.random() < .7: continue
            bad = r.random() < .15; a = ["serial", r.randrange(2) + 2 * bad, r.choice([10, r.randrange(14)]), r.choice([8, 8, 7, 5]), r.choice([0, 2]), r.choice([0, 0, 1, 2])]
            out.append(a); on[0] = not bad; q[0] = ""
        elif o == "sockets":
            if link and r.random() < .7: continue
            out += [["close", 2], ["close", 3]]; on[2] = on[3] = link = False; q[2] = q[3] = ""
            if r.random() < .3: out += [["client", r.randrange(2)], ["isopen", 2]]
            out += [["server", r.randrange(2)], ["link", r.randrange(2)]]; on[2] = on[3] = link = True
        elif o == "put":
            e = r.choice([0, 2, 3, 5, 6]); way = r.randrange(5); t = word() if way < 3 else str(r.choice([0, -1, 7, 32767, -32768, r.randrange(-999, 999)])); fin = r.randrange(3)
            if e in (2, 3) and on[e] and not link: continue
            if not on[e] and (not shut or r.random() < .8): continue
            out.append(["put", e, way, t, fin]); p = {0: 1, 2: 3, 3: 2}.get(e, e)
            if on[e]: q[p] += t + ("|" if fin == 1 else "_")
        elif o == "feed":
            e = r.choice([0, 4]); t = r.choice(["_", "", "|", "_|_"]) + (word() if r.random() < .7 else str(r.randrange(-999, 999))) + r.choice(["_", "|"])
            if e == 4 or on[0]: out.append(["feed", e, t]); q[e] += t
        elif o == "get":
            e = r.choice([0, 2, 3, 4]); s = q[e].lstrip("_|")
            if not on[e]:
                if shut and r.random() < .1: out.append(["get", e, r.choice(["word", "int", "char", "raw"])])
                continue
            if not s: continue
            import re
            w = re.match(r"[^_|]*", s).group(); k = r.choice(["word", "word", "char", "raw"])
            if re.fullmatch(r"0|-?[1-9]\d{0,8}", w) and r.random() < .7: k = "int"
            q[e] = q[e][1:] if k == "raw" else s[1:] if k == "char" else s[len(w) + 1:]
            out.append(["get", e, k])
        elif o == "look": e = r.choice([1, 5, 6]); out.append([o, e]); q[e] = ""
        elif o == "isopen": out.append([o, r.choice([0, 2, 3, 4, 5, 6])])
        elif o == "line": out.append([o])
        elif r.random() < .15:
            e = r.choice([0, 2, 3]); out.append(["close", e]); on[e] = False
            if e == 0: q[0] = ""
            else: out.append(["close", 5 - e]); on[2] = on[3] = link = False; q[2] = q[3] = ""
    return out


def run(k):
    dbg, rel = k.builds([("devstream", SRC, dict(flags=FLAGS, san="address,undefined")), ("devstream", SRC, dict(flags=FLAGS + ["-DNDEBUG"], opt="-O2", out="devstream_rel"))])
    cmds = r"""{<<"put", e, w, t, f>> : e \in {0, 5, 6}, w \in {0, 1}, t \in {"ab", "7"}, f \in {0, 1}} \cup {<<"look", e>> : e \in {1, 5, 6}} \cup {<<"serial", 0, 10, 8, 0, 0>>, <<"serial", 3, 10, 8, 0, 0>>, <<"line">>, <<"isopen", 0>>, <<"close", 0>>}
 \cup {<<"feed", e, t>> : e \in IF s.on[0] = 1 THEN {0, 4} ELSE {4}, t \in {"_ab_", "7|"}} \cup {<<"get", e, x>> : e \in {d \in {0, 4} : s.q[d] # <<>>}, x \in {"word", "char", "raw"}}"""
    cmds = "{c \\in " + cmds + ' : (c[1] = "get" /\\ c[3] # "raw") => Skip(s.q[c[2]]) # <<>>}'
    e = k.mc("DevStrS", "", cmds=cmds, constraint='(\\A e \\in 0..6 : Len(s.q[e]) <= 5) /\\ TLCGet("level") <= %d' % (5 if k.thorough else 4))
    k.replay(dbg, e, "serial and console streams", maxlen=200)
    r = k.rng; n = 120 if k.thorough else 40
    k.validate("DevStrS", dbg, [[["mode", 1]] + history(r, 60) for _ in range(n)], "random histories of all streams", chunks=4)
    k.validate("DevStrS", rel, [[["mode", 0]] + history(r, 60, False) for _ in range(n // 2)], "random histories of all streams, release build", chunks=4)
