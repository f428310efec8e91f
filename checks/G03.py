from vlib import *
from checks_geo import GEO
SRC = GEO + ["ecl_geometry/src/lib/*spline*.cpp", "ecl_geometry/src/lib/tension_function.cpp"]


def c2(rng, n, natural, xs=None):
    x = rng.randrange(-5, 6)
    xs = [x]
    for _ in range(n - 1):
        xs.append(xs[-1] + rng.choice([1, 1, 2, 3]))
    M = [6 * rng.randrange(-3, 4) for _ in range(n)]
    if natural:
        M[0] = M[-1] = 0
    y, d0 = rng.randrange(-9, 10), rng.randrange(-5, 6)
    ys, d = [y], d0
    for i in range(n - 1):
        h = xs[i + 1] - xs[i]
        y = y + d * h + M[i] // 2 * h * h + (M[i + 1] - M[i]) // 6 * h * h
        d = d + (M[i] + M[i + 1]) // 2 * h
        ys.append(y)
    return ["nat" if natural else "clamp", xs, ys, M, d0, d]


def smooth(rng, n):
    """n segments 5,10,..,10,5 (times 1): symmetric corners of half width j"""
    hs = [5] if n == 1 else [5] + [10] * (n - 2) + [5]
    xs = [rng.randrange(-3, 4)]
    for h in hs:
        xs.append(xs[-1] + h)
    ms = [rng.randrange(-3, 4) for _ in range(n)]
    ys = [rng.randrange(-4, 5)]
    for h, m in zip(hs, ms):
        ys.append(ys[-1] + h * m)
    while True:
        a4 = rng.choice([2, 3, 4, 5, 7, 9, 13, 20])
        if all(3 * abs(b - a) != j * a4 for a, b in zip(ms, ms[1:]) for j in range(1, 6)):
            break
    js = []
    for a, b in zip(ms, ms[1:]):
        js.append(0 if a == b else next((j for j in range(1, 6) if 3 * abs(b - a) < j * a4), 6))
    return xs, ys, a4, js


def run(k):
    e = k.build("spline", SRC)
    k.mc("SplineS", "MC2 == C2(s) /\\ Continuous(s)", emit=False, cmds=r"""
  {<<"nat", xs, YsOf(xs, M, y, d, 1), M, d, DsOf(xs, M, d, 1)[4]>> : xs \in {<<0, 1, 3, 4>>, <<-2, 1, 2, 4>>}, M \in {<<0, a, b, 0>> : a, b \in {-6, 0, 12}}, y \in {0, 5}, d \in {-1, 2}}
  \cup {<<"clamp", xs, YsOf(xs, M, y, d, 1), M, d, DsOf(xs, M, d, 1)[3]>> : xs \in {<<0, 1, 3>>, <<-2, 1, 2>>}, M \in {<<a, b, t>> : a, b, t \in {-6, 0, 12}}, y \in {0, 5}, d \in {-1, 2}}
""", invariants=["MC2"])
    edges = k.mc("SplineS", "", cmds=r"""
  LET all == {<<"nat", xs, YsOf(xs, M, 3, d, 1), M, d, DsOf(xs, M, d, 1)[4]>> : xs \in {<<0, 1, 3, 4>>, <<-2, 1, 2, 4>>}, M \in {<<0, a, b, 0>> : a, b \in {-6, 0, 12}}, d \in {-1, 2}}
          \cup {<<"clamp", xs, YsOf(xs, M, 5, d, 1), M, d, DsOf(xs, M, d, 1)[3]>> : xs \in {<<0, 1, 3>>, <<-2, 1, 2>>}, M \in {<<a, b, t>> : a, b, t \in {-6, 0, 12}}, d \in {-1, 2}}
          \cup {<<"nat", xs, YsOf(xs, <<0, 0>>, 1, d, 1), <<0, 0>>, d, d>> : xs \in {<<0, 1>>, <<2, 5>>}, d \in {-2, 0, 3}}
          \cup {<<"heur", xs, ys, d, f>> : xs \in {<<0, 1, 3, 4>>, <<-1, 1, 2, 3>>}, ys \in {<<0, 4, 4, 8>>, <<4, 0, 8, -4>>, <<0, 0, 0, 0>>}, d \in {-2, 0}, f \in {0, 3}}
      bad == {<<op, xs, ys, <<0, 0, 0>>, 0, 0>> : op \in {"nat", "clamp"}, xs \in {<<0, 1>>, <<1>>, <<0, 1, 2, 4>>}, ys \in {<<5>>, <<1, 2, 3>>}} \cup {<<"heur", <<0, 1, 2>>, <<0, 4>>, 0, 0>>}
  IN IF s.k = "none" THEN all \cup bad ELSE {<<op, q>> : op \in {"at", "d", "dd"}, q \in (4 * s.xs[1] - 1)..(4 * s.xs[Len(s.xs)] + 1)}
""")
    k.replay(e, edges, "cubic splines on small data, exhaustively", maxlen=200)
    scripts = []
    for _ in range(400 if k.thorough else 90):
        n = k.rng.randrange(2, 7)
        sc = []
        for _ in range(3):
            u = k.rng.random()
            if u < .35:
                cmd = c2(k.rng, n, True)
            elif u < .7:
                cmd = c2(k.rng, n, False)
            else:
                xs = [k.rng.randrange(-4, 5)]
                ys = [4 * k.rng.randrange(-3, 4)]
                for _ in range(n - 1):
                    h = k.rng.choice([1, 2, 3])
                    xs.append(xs[-1] + h)
                    ys.append(ys[-1] + h * 2 * k.rng.randrange(-4, 5))
                cmd = ["heur", xs, ys, k.rng.randrange(-5, 6), k.rng.randrange(-5, 6)]
            sc.append(cmd)
            for _ in range(25):
                sc.append([k.rng.choice(["at", "d", "dd"]), k.rng.randrange(4 * cmd[1][0] - 2, 4 * cmd[1][-1] + 3)])
            sc += [["at", 4 * x] for x in cmd[1]]
        scripts.append(sc)
    k.validate("SplineS", e, scripts, "random cubic splines", invariants=["MC2"], extra_defs="MC2 == C2(s) /\\ Continuous(s)", chunks=3)
    # smooth linear splines
    scripts = []
    for _ in range(500 if k.thorough else 120):
        n = k.rng.choice([1, 2, 2, 3, 4, 5])
        xs, ys, a4, js = smooth(k.rng, n)
        sc = [["smooth", xs, ys, a4]]
        if 6 not in js:
            def corner(x2):
                for i, j in enumerate(js):
                    if j and 2 * (xs[i + 1] - j) < x2 <= 2 * (xs[i + 1] + j):
                        return j
                return 0
            for x2 in range(2 * xs[0] - 1, 2 * xs[-1] + 2):
                j = corner(x2)
                sc.append(["sat", x2, 256 * j ** 3 if j else 2])
                if 2 * xs[0] <= x2 <= 2 * xs[-1]:
                    sc.append([k.rng.choice(["sd", "sdd"]), x2, 256 * j ** 3 if j else 2])
        scripts.append(sc)
        # uneven corners, no bound on the acceleration
        xs = [k.rng.randrange(-9, 9)]
        ys = [k.rng.randrange(-9, 9)]
        n = k.rng.choice([2, 3, 4])
        for _ in range(n):
            h = 10 * k.rng.randrange(1, 5)
            xs.append(xs[-1] + h)
            ys.append(ys[-1] + h * k.rng.randrange(-5, 6))
        sc = [["smooth", xs, ys, -1]]
        ms = [(ys[i + 1] - ys[i]) // (xs[i + 1] - xs[i]) for i in range(n)]
        for i in range(n - 1):
            if ms[i] == ms[i + 1]:
                continue
            wl = (xs[i + 1] - xs[i]) // (5 if i == 0 else 10)
            wr = (xs[i + 2] - xs[i + 1]) // (5 if i == n - 2 else 10)
            l, r = xs[i + 1] - wl, xs[i + 1] + wr
            mult = 256 * wl ** 3 if wl == wr else 64
            sc += [["sat", 2 * l, 64], ["sd", 2 * l, 64], ["sdd", 2 * l, 64], ["sat", l + r, mult], ["sat", 2 * r, mult], ["sd", 2 * r, mult], ["sdd", 2 * r, mult]]
        scripts.append(sc)
    scripts += [[["smooth", [0, 5, 10], [0, 5], 4]], [["smooth", [0, 5], [0, 5, 4], -1]]]
    k.validate("SplineS", e, scripts, "smooth linear splines", chunks=3)
    scripts = []
    for _ in range(300 if k.thorough else 80):
        n = k.rng.randrange(2, 8)
        xs = [k.rng.randrange(-4, 5)]
        for _ in range(n - 1):
            xs.append(xs[-1] + k.rng.choice([1, 1, 2]))
        if k.rng.random() < .3:
            m = k.rng.randrange(-3, 4)
            ys = [2 + m * (x - xs[0]) for x in xs]
        else:
            m, ys = None, [k.rng.randrange(-9, 10) for _ in xs]
        sc = [["tens", xs, ys, k.rng.choice([5, 10, 14, 20, 33])]]
        sc += [["tknot", i] for i in range(n)] + [["tjump", i] for i in range(1, n - 1)] + [["tends"]]
        sc += [[op, i] for op in ("tode", "tslope") for i in range(n - 1)] + [["tout", a, b] for a in (-1, 1) for b in (0, 1, 2)]
        if m is not None:
            sc += [["tline", x] for x in range(2 * xs[0], 2 * xs[-1] + 1)]
        R = lambda n: k.rng.randrange(-n, n + 1)
        x = R(4)
        sc += [["tfun", x, R(9), R(9), x + k.rng.randrange(1, 4), R(9), R(9), k.rng.choice([5, 10, 20])]]
        scripts.append(sc)
        # tight
        tau = k.rng.choice([4000, 7000, 20000, 100000])
        sc = [["tens", xs, ys, tau]] + [["tknot", i] for i in range(n)] + [["tends"]] + [["tout", a, b] for a in (-1, 1) for b in (0, 1, 2)] + [["tlin", i] for i in range(n - 1)]
        scripts.append(sc)
    scripts.append([["tens", [0, 1, 2], [0, 1], 10]])
    k.validate("SplineS", e, scripts, "tension splines", chunks=3)
