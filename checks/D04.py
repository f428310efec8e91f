from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_devices/src/lib/console.cpp", "ecl_devices/src/lib/detail/character_buffer.cpp"]


def run(k):
    dbg, rel = k.builds([("console", SRC, dict(san="address,undefined")), ("console", SRC, dict(flags=["-DNDEBUG"], out="console_rel"))])
    cmds = r"""{c \in {<<"w", d, i, y, ch, 1>> : d \in 0..1, i \in 0..1, y \in 0..1, ch \in {0, 65}} \cup {<<"w", 0, 0, 1, 66, n>> : n \in {0, 2, 4094, 4095, 5001}} \cup {<<op, d, i>> : op \in {"flush", "flushbad"}, d \in 0..1, i \in 0..1} \cup {<<"wbad", d, 0, 1, 67, 5001>> : d \in 0..1} \cup {<<"look", 0>>, <<"look", 1>>} : Cardinality(Step(s, c)) = 1}"""
    e = k.mc("ConsoleS", "", cmds=cmds, constraint="(\\A d \\in 0..1 : Size(s.out[d]) <= 5100 /\\ Len(s.out[d]) <= %d /\\ (\\A i \\in 0..1 : Len(s.held[d][i]) <= 2 /\\ Size(s.held[d][i]) <= 5100)) /\\ TLCGet(\"level\") <= %d" % ((4, 6) if k.thorough else (2, 4)))
    k.replay(dbg, e, "output", maxlen=400, limit=None if k.thorough else 6000)
    cmds = r"""{c \in {<<"feed", x>> : x \in {<<65>>, <<10>>, <<0>>, <<255>>, <<66, 67, 10>>, <<128, 10, 10>>}} \cup {<<"rs", n>> : n \in 2..4} \cup {<<"rc">>, <<"end">>} : Cardinality(Step(s, c)) = 1}"""
    e = k.mc("ConsoleS", "", cmds=cmds, constraint="Len(s.typed) <= %d" % (6 if k.thorough else 4), tag="input")
    k.replay(dbg, e, "input", maxlen=400)
    r = k.rng

    def script(n):
        out = []; held = [[0, 0], [0, 0]]; size = [0, 0]; typed = []; done = False
        for _ in range(n):
            o = r.choice(["w"] * 6 + ["flush"] * 3 + ["look", "bad", "late", "open"] + ["feed"] * 3 + ["rc"] * 2 + ["rs"] * 3 + (["end"] if r.random() < .05 else []))
            d = r.randrange(2); i = r.randrange(2)
            if o == "w":
                if held[d][1 - i]: out.append(["flush", d, 1 - i]); size[d] += held[d][1 - i]; held[d][1 - i] = 0
                n = r.choice([0, 1, 1, 1, 2, 5, 100, 4094, 4095, 4096, 8190, 8191, 20000]); out.append([o, d, i, 1 if n != 1 else r.randrange(2), r.choice([0, 10, 37, 65, 66, 128, 255]), n]); held[d][i] += n
            elif o == "flush": out.append([o, d, i]); size[d] += held[d][i]; held[d][i] = 0
            elif o == "look":
                for j in (0, 1):
                    if held[d][j]: out.append(["flush", d, j]); size[d] += held[d][j]; held[d][j] = 0
                out.append([o, d])
            elif o == "late": out.append([o, d, size[d] + sum(held[d])])
            elif o == "open": out.append([o])
            elif o == "bad":
                if held[d][i] == 0 and held[d][1 - i] == 0: out.append(["wbad", d, i, 1, 67, r.choice([5001, 9000])])
                elif 0 < held[d][i] <= 2000: out.append(["flushbad", d, i]); held[d][i] = 0
            elif o == "feed":
                if not done: x = [r.choice([10, 10, 32, 37, 65, 66, 127, 128, 254, 255] + [0] * (r.random() < .1)) for _ in range(r.randrange(1, 12))]; typed += x; out.append([o, x])
            elif o == "rc":
                if typed: typed.pop(0); out.append([o])
                elif done: out.append([o])
            elif o == "rs":
                m = r.choice([2, 3, 5, 8, 100])
                if 0 in typed: continue
                if not typed:
                    if done: out.append([o, m])
                    continue
                f = typed.index(10) + 1 if 10 in typed else 10 ** 6
                t = min(f, m - 1, len(typed))
                if t < m - 1 and t != f and not done: continue
                del typed[:t]; out.append([o, m])
            elif not done: done = True; out.append(["end"])
        return out
    n = 200 if k.thorough else 40
    k.validate("ConsoleS", dbg, [[["mode", 1]] + script(100) for _ in range(n)], "random sessions", chunks=4)
    k.validate("ConsoleS", rel, [[["mode", 0]] + script(100) for _ in range(n)], "random sessions, release build", chunks=4)
