from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp"]
INTOPS = {"new", "setx", "sety", "at", "put", "copy", "eq", "inc", "plus", "minus", "show", "q3", "q3set", "q3copy", "q3show", "nnew", "nset", "nget"}


def run(k):
    d, f, i = k.builds([("point", SRC, dict(flags=["-DVT=double", "-DREALS"], out="pd")), ("point", SRC, dict(flags=["-DVT=float", "-DREALS"], out="pf")), ("point", SRC, dict(flags=["-DVT=int"], out="pi"))])
    m = 2 if k.thorough else 1
    e1 = k.mc("PointS", "MInv == Inv(s)\nLim == \\A a \\in 1..2, b \\in 1..2 : s.p[a][b] \\in -%d..%d" % (m + 1, m + 1), cmds=r"""
  {<<"new", a, w, x, y>> : a \in {0, 1}, w \in 0..4, x \in {1, 2}, y \in {-1, 2}} \cup {<<op, a, 3>> : op \in {"setx", "sety", "times"}, a \in {0, 1}} \cup {<<"at", a, j>> : a \in {0, 1}, j \in 0..3} \cup {<<"put", a, j, 2>> : a \in {0, 1}, j \in 0..2}
  \cup {<<op, a, b>> : op \in {"copy", "eq", "inc", "dist"}, a \in {0, 1}, b \in {0, 1}} \cup {<<op, a, b, d>> : op \in {"plus", "minus"}, a \in {0, 1}, b \in {0, 1}, d \in {0, 1}}
  \cup {<<"rot", a, j>> : a \in {0, 1}, j \in -1..3} \cup {<<op, a>> : op \in {"angle", "norm", "unit", "show"}, a \in {0, 1}}""", invariants=["MInv"], constraint="Lim", tag="p")
    lim = None if k.thorough else 300
    k.replay(d, e1, "every transition on plane points", maxlen=120, limit=lim)
    k.replay(f, e1, "every transition on plane points, float", maxlen=120, limit=lim)
    k.replay(i, [e for e in e1 if e[1][0] in INTOPS], "every transition on plane points, int", maxlen=120, limit=lim)
    e3 = k.mc("PointS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= %d" % (m + 2), cmds=r"""
  {<<"q3", a, w, 1, 2, 3>> : a \in {0, 1}, w \in 0..3} \cup {<<"q3set", a, j, 5>> : a \in {0, 1}, j \in 0..2} \cup {<<"q3copy", a, b>> : a \in {0, 1}, b \in {0, 1}} \cup {<<"q3show", a>> : a \in {0, 1}}
  \cup {<<"nnew", w, <<1, 2, 3, 4>>>> : w \in 0..2} \cup {<<"nset", j, 9>> : j \in 0..5} \cup {<<"nget", j>> : j \in 0..5}
  \cup {<<"hxyz", w, 1, 2, 3>> : w \in 0..3} \cup {<<"hvec4", 0, 1, 2, 3, w>> : w \in {0, 1, 2, -1}} \cup {<<"hset", j, 5>> : j \in 0..2} \cup {<<"hget">>}""", invariants=["MInv"], constraint="Lim", tag="s")
    k.replay(d, e3, "every transition on other points", maxlen=120, limit=lim)
    k.replay(f, e3, "every transition on other points, float", maxlen=120, limit=lim)
    k.replay(i, [e for e in e3 if e[1][0] in INTOPS], "every transition on other points, int", maxlen=120, limit=lim)
    R = lambda n: k.rng.randrange(-n, n + 1)
    scripts = []
    for _ in range(400 if k.thorough else 80):
        sc = []
        for j in range(60):
            a, b, e = (k.rng.randrange(2) for _ in range(3))
            if j % 8 == 0: sc += [["new", z, k.rng.randrange(5), R(100), R(100)] for z in (0, 1)]
            sc.append(k.rng.choice([["new", a, 1, R(100) * 0 + 7 * R(3), 7 * R(3)], ["new", a, 1, 3 * R(9), 4 * R(9)], ["setx", a, R(100)], ["sety", a, R(100)], ["at", a, k.rng.randrange(4)], ["put", a, k.rng.randrange(3), R(100)], ["copy", a, b], ["eq", a, b], ["inc", a, b], ["plus", a, b, e], ["minus", a, b, e],
                                    ["rot", a, R(9)], ["times", a, R(9)], ["dist", a, b], ["norm", a], ["unit", a], ["unit", a], ["show", a], ["q3", a, k.rng.randrange(4), R(100), R(100), R(100)], ["q3set", a, k.rng.randrange(3), R(100)], ["q3copy", a, b], ["q3show", a],
                                    ["nnew", k.rng.randrange(3), [R(100) for _ in range(4)]], ["nset", k.rng.randrange(6), R(100)], ["nget", k.rng.randrange(6)], ["hxyz", k.rng.randrange(4), R(100), R(100), R(100)], ["hvec4", 0, R(9), R(9), R(9), k.rng.randrange(3)], ["hset", k.rng.randrange(3), R(100)], ["hget"]]))
        sc += [c for x in (-3, 0, 3) for y in (-3, 0, 3) for c in (["new", 0, 1, x, y], ["angle", 0], ["unit", 0])]
        scripts.append(sc)
    k.validate("PointS", d, scripts, "random points", invariants=["MInv"], extra_defs="MInv == Inv(s)")
    k.validate("PointS", f, scripts[:60], "random points, float", invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=2)
    k.validate("PointS", i, [[c for c in sc if c[0] in INTOPS] for sc in scripts[:60]], "random points, int", invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=2)
