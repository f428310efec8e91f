from vlib import *
SRC = ["ecl_statistics/src/lib/*.cpp", "ecl_exceptions/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]


def run(k):
    dbg, rel = k.builds([("stat", SRC, {}), ("stat", SRC, dict(flags=["-DNDEBUG"], opt="-O2", out="stat_rel"))])
    edges = k.mc("StatS", "", cmds=r"""
  {<<"push", t, x>> : t \in 0..1, x \in {-3, 0, 5, 8}} \cup {<<o, t>> : o \in {"clear", "copy", "stat"}, t \in 0..1}
  \cup (IF s # Init0 THEN {} ELSE {<<"e0", t, d>> : t \in 0..1, d \in 2..3}
    \cup {<<"e2", t, p[1], p[2], p[3], l, m>> : t \in 0..1, l \in 1..4, m \in 1..4, p \in {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<4, -3, 5>>, <<-5, -12, 13>>, <<15, 8, 17>>}}
    \cup {<<"e2t", t, a, d, e>> : t \in 0..1, a \in 1..5, d \in 1..5, e \in {30, 52, 56, 60}} \cup {<<"e2n", 0, a, e>> : a \in 1..20, e \in 25..52} \cup {<<"e2n", 1, a, e>> : a \in 1..20, e \in 20..23}
    \cup {<<"e3", t, q, l, b>> : t \in 0..1, b \in 0..1, q \in {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 1, 1, 1>>, <<0, 1, 2, 0>>, <<2, 1, 0, -1>>, <<1, 2, 3, 1>>, <<0, 0, 1, 0>>, <<1, 0, 0, -1>>}, l \in {<<1, 2, 3>>, <<1, 1, 2>>, <<2, 3, 3>>, <<2, 2, 2>>, <<1, 5, 9>>}})
""", constraint="(Len(s.d[1]) + Len(s.d[2]) <= %d)" % (4 if k.thorough else 3))
    k.replay(dbg, edges, "statistics of small data, ellipses and ellipsoids", maxlen=3000)
    r = k.rng
    py = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (1, 0, 1)]

    def script(n):
        s = []
        for _ in range(n):
            t = r.randrange(2); x = r.choice(["push"] * 5 + ["stat"] * 3 + ["clear", "copy", "e2", "e2", "e2t", "e2n", "e3", "e3", "e3"])
            if x == "push": s.append([x, t, r.randrange(-40, 41)])
            elif x in ("stat", "clear", "copy"): s.append([x, t] if x != "clear" or r.random() < .3 else ["stat", t])
            elif x == "e2":
                a, b, c = r.choice(py); a, b = r.choice([(a, b), (b, a)]); l, m = sorted([r.randrange(1, 9), r.randrange(1, 9)], reverse=True); s.append([x, t, a * r.choice([-1, 1]), b * r.choice([-1, 1]), c, l, m])
            elif x == "e2t":
                a, d = r.randrange(1, 30), r.randrange(1, 30)
                if a != d: s.append([x, t, a, d, r.randrange(30, 65)])
            elif x == "e2n": s.append([x, t, r.randrange(1, 100), r.randrange(20, 24) if t else r.randrange(25, 54)])
            else: s.append([x, t, [r.randrange(-3, 4) for _ in range(3)] + [r.randrange(1, 4)], sorted(r.randrange(1, 7) for _ in range(3)), r.randrange(2)])
        return s
    n = 400 if k.thorough else 60
    k.validate("StatS", dbg, [script(60) for _ in range(n)], "random statistics", chunks=3)
    k.validate("StatS", rel, [script(60) for _ in range(n)], "random statistics, release build", chunks=3)
