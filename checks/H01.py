from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp", "ecl_linear_algebra/src/lib/sophus_*.cpp"]
Q = [[0, 0, 0, 2], [2, 0, 0, 0], [0, 2, 0, 0], [0, 0, 2, 0], [0, 0, -2, 0], [1, 1, 1, 1], [1, -1, 1, 1], [-1, 1, -1, 1], [0, 0, 0, -2]]


def history(r, n):
    out = []; on = False
    v = lambda m: [r.randrange(-m, m + 1) for _ in range(3)]
    for _ in range(n):
        o = r.choice(["between"] * 4 + ["coplanar", "pose", "pose", "quaternion", "points", "stream", "format", "set", "give", "give", "print", "print"])
        if o == "between":
            k = r.choice([1, 2, 2, 3, 4, 5, 7, 10]); d = r.choice([0, r.randrange(-170 // k, 170 // k + 1), r.randrange(-170 // k, 170 // k + 1)]); m = r.choice([0, 1, 9, 60])
            out.append([o, r.randrange(4), [r.randrange(-180, 181)] + v(m)[:2], [d] + v(r.choice([0, 1, 20]))[:2], k, r.randrange(k + 1)])
        elif o == "coplanar": a = r.randrange(-3, 4); out.append([o, r.randrange(-180, 180, 15), a, r.randrange(-180, 180, 15), r.choice([a, a, a + 1, -a])])
        elif o == "pose": out.append([o, r.randrange(2), v(50)[:2] + [r.choice([0, 90, 180, 270, -90])], v(50)])
        elif o == "quaternion": out.append([o, r.randrange(2), r.choice([0, 90, 180, 270, -90, 360]), v(90)])
        elif o == "points":
            x, y = v(30)[:2]; m = r.choice([1, 2, 7]); a, b = r.choice([(3, 4), (4, 3), (5, 12), (1, 0), (0, 1), (1, 1), (2, 7), (0, 0)]); out.append([o, [x, y, x + m * r.choice([1, -1]) * a, y + m * r.choice([1, -1]) * b]])
        elif o == "stream": out.append([o, 1, v(400), r.choice(Q)] if r.random() < .7 else [o, 0, v(400)])
        elif o == "format": out.append([o]); on = True
        elif not on: continue
        elif o == "set": out.append([o, 1, r.choice([-1, 5, 8, 12, 3])] if r.random() < .5 else [o, 0, r.choice([2, 2, 3, 4, 6])])
        elif o == "give": out.append([o, v(r.choice([3, 400])), r.choice(Q)] + ([r.choice([-1, 6, 10]), r.choice([2, 3, 5])] if r.random() < .4 else []))
        else: out.append([o])
    return out


def run(k):
    F = ["-DECL_CXX11_FOUND"]
    dbg, rel = k.builds([("sophus", SRC, dict(flags=F, san="address,undefined")), ("sophus", SRC, dict(flags=F + ["-DNDEBUG"], opt="-O2", out="sophus_rel"))])
    cmds = r"""IF s.on = 0 THEN {<<"format">>} ELSE {<<"format">>, <<"print">>, <<"set", 1, 9>>, <<"set", 0, 3>>, <<"set", 1, -1>>} \cup {<<"give", t, q>> : t \in {<<1, -2, 7>>}, q \in {<<0, 0, 0, 2>>}} \cup {<<"give", <<-5, 0, 40>>, <<1, 1, -1, 1>>, w, p>> : w \in {8, -1}, p \in {2, 4}}"""
    e = k.mc("SophusS", "", cmds=cmds)
    k.replay(dbg, e, "every state of a formatter", maxlen=200)
    r = k.rng; n = 100 if k.thorough else 30
    k.validate("SophusS", dbg, [[["mode", 1]] + history(r, 60) for _ in range(n)], "random interpolations, conversions and texts", chunks=4)
    k.validate("SophusS", rel, [[["mode", 0]] + history(r, 60) for _ in range(n // 2)], "random interpolations, conversions and texts, release build", chunks=2)
