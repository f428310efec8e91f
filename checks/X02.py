from streamgen import *


def run(k):
    mem, ss, rel = drivers(k)
    base = r"""{<<"text", w, q>> : w \in 0..2, q \in {<<>>, <<"a">>, <<"b", " ", "%">>}} \cup {<<"num", t, "-12">> : t \in {1, 2, 3, 4}} \cup {<<"num", t, "65535">> : t \in {6, 7, 8, 9}} \cup {<<"flt", t, v>> : t \in {0, 1}, v \in {-12, 1}} \cup {<<"bool", b>> : b \in {0, 1}} \cup {<<"endl">>, <<"clr">>, <<"flush">>, <<"str">>, <<"size">>, <<"left">>, <<"read", 14>>, <<"read", 12>>, <<"clear">>, <<"fail">>}"""
    lim = 'TLCGet("level") <= %d' % (4 if k.thorough else 3)
    e = k.mc("StreamS", "", cmds=base + r' \cup {<<"full", b>> : b \in {0, 1}} \cup {<<"flushes">>}', constraint=lim, tag="mem")
    k.replay(mem, e, "every short history of outputs", maxlen=400)
    e = k.mc("StreamS", "", cmds="((" + base + r') \ {<<"endl">>}) \cup {<<"dread", n>> : n \in 1..3} \cup {<<"dwrite", w, <<"q", "r">>>> : w \in {0, 1}}', constraint=lim, tag="str")
    k.replay(ss, e, "every short history of string streams", maxlen=400)
    r = k.rng

    def script(n, m):
        out = []
        for _ in range(n):
            t = r.choice([1, 2, 3, 4, 6, 7, 8, 9])
            o = r.choice(["text", "text", "num", "num", "flt", "big", "bool", "endl", "clr", "flush", "read", "str", "size", "left", "fail", "dev", "dev"])
            if o == "text": out.append([o, r.randrange(3), [r.choice("abcxyz %") for _ in range(r.choice([0, 1, 2, 5, 30, 200, 257, 300] if r.random() < .3 else [0, 1, 2, 3, 5]))]])
            elif o == "num": out.append([o, t, str(r.choice([MAX[t - 1], MIN[t - 1], 0, 1, r.randrange(MIN[t - 1], MAX[t - 1] + 1)]))])
            elif o == "flt": out.append([o, r.randrange(2), r.choice([0, 1, -1, r.randrange(-1000, 1000), r.randrange(-10 ** 6, 10 ** 6)])])
            elif o == "big": w = r.randrange(2); out.append([o, w, r.choice([-9, 1, 7, -1]), r.choice([1, 5, 20, 31] + ([60, 100, 255] if w and r.random() < .3 else []))])
            elif o == "bool": out.append([o, r.randrange(2)])
            elif o == "read": out.append([o, r.choice([12, 14])])
            elif o == "clr":
                if r.random() < .15: out.append([o])
            elif o == "dev" and m and r.random() < .2: out += [["shut", 1]] + [r.choice([["text", r.randrange(3), ["a"]], ["num", t, "7"], ["num", r.choice([1, 2, 3, 4, 6, 7, 8, 9]), "1"], ["flt", r.randrange(2), 4], ["big", 1, 1, 2], ["bool", 1], ["str"], ["fail"]]) for _ in range(5)] + [["shut", 0], ["str"]]
            elif o == "dev":
                if m: out.append(r.choice([["full", r.randrange(2)], ["full", 0], ["flushes"]]))
                else: out.append(r.choice([["dread", r.choice([1, 2, 3, 50, 400])], ["dwrite", r.randrange(2), [r.choice("mnop") for _ in range(r.choice([0, 1, 3, 255, 256, 257, 300]))]], ["clear"]]))
            else: out.append([o])
        return out
    n = 100 if k.thorough else 20
    k.validate("StreamS", mem, [script(60, True) for _ in range(n)], "random outputs", chunks=4)
    k.validate("StreamS", ss, [script(60, False) for _ in range(n)], "random outputs of string streams", chunks=4)
    # the string device grows character by character
    grow = [["dwrite", 1, ["a"] * 300], ["str"], ["dwrite", 0, ["b"]], ["dwrite", 1, ["c"] * 600], ["size"], ["dread", 700], ["left"], ["clear"], ["str"], ["dwrite", 1, ["d"] * 2], ["str"], ["dwrite", 1, ["e"] * 260], ["dread", 1], ["str"], ["clear"], ["dwrite", 0, ["f"]], ["dwrite", 0, []], ["str"]]
    k.validate("StreamS", ss, [grow], "growth", chunks=1)
    k.validate("StreamS", rel, [grow] + [script(60, False) for _ in range(n // 2)], "random outputs, release build", chunks=2)
