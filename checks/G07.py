from vlib import *
SRC = ["ecl_geometry/src/lib/odometry_helper.cpp", "ecl_geometry/src/lib/linear_segment.cpp", "ecl_exceptions/src/lib/*.cpp"]


def run(k):
    exe, rel = k.builds([("odom", SRC, dict(flags=["-DECL_CXX11_FOUND"])), ("odom", SRC, dict(flags=["-DECL_CXX11_FOUND", "-DNDEBUG"], out="odom_rel", opt="-O2"))])
    n = 3 if k.thorough else 2
    common = r"""{<<"cat", f, a, b>> : f \in F, a \in {0, 1}, b \in {0, 1}} \cup {<<"cut", f, a, m>> : f \in F, a \in {0, 1}, m \in 0..2}
  \cup {<<op, f, a>> : op \in {"size", "front", "back"}, f \in F, a \in {0, 1}} \cup {<<"at", f, a, m>> : f \in F, a \in {0, 1}, m \in {0, 1}}"""
    lim = "Lim == \\A f \\in {0, 1}, a \\in {0, 1} : Len(Q(s, f, a)) <= %d" % n
    ed = k.mc("OdomS", "F == {0}\nMInv == Inv(s)\nA == <<1, 2, 3>>\nZ == <<-2, 2, 0>>\n" + lim, cmds=common + r"""
  \cup {<<"vec", 0, a, w, l>> : a \in {0, 1}, w \in {0, 1}, l \in {<<>>, <<A>>, <<Z, A>>}} \cup {<<"grow", 0, a, x>> : a \in {0, 1}, x \in {A, Z}} \cup {<<"set", 0, a, m, x>> : a \in {0, 1}, m \in {0, 1}, x \in {A, Z}}
  \cup {<<"path", a, w, x, 1>> : a \in {0, 1}, w \in {0, 1}, x \in {-1, 4}}""", invariants=["MInv"], constraint="Lim", tag="p")
    k.replay(exe, ed, "every transition on pose trajectories", maxlen=300)
    ed = k.mc("OdomS", "F == {1}\nMInv == Inv(s)\nA == <<1, 2, 3, 4, 5, 6>>\nZ == <<0, 1, 0, -1, 0, 2>>\n" + lim, cmds=common + r"""
  \cup {<<"vec", 1, a, w, l>> : a \in {0, 1}, w \in {0, 1}, l \in {<<>>, <<A>>, <<Z, A>>}} \cup {<<"grow", 1, a, x>> : a \in {0, 1}, x \in {A, Z}} \cup {<<"set", 1, a, m, x>> : a \in {0, 1}, m \in {0, 1}, x \in {A, Z}}
  \cup {<<"twists", a>> : a \in {0, 1}} \cup (IF s.p[1] = <<>> THEN {<<"poses", 0, a>> : a \in {0, 1}} ELSE {<<"cut", 0, 0, 0>>})""", invariants=["MInv"], constraint="Lim", tag="o")
    k.replay(exe, ed, "every transition on odometry trajectories", maxlen=300)
    ed = k.mc("OdomS", "MInv == Inv(s)\nLim == Cardinality({j \\in 1..6 : s.e[j] # 0}) <= 2 /\\ TLCGet(\"level\") <= 4", cmds=r"""
  {<<"eset", j, x>> : j \in 1..6, x \in {0, 7}} \cup {<<"vset", j, x>> : j \in 1..3, x \in {5}} \cup {<<"tset", j, x>> : j \in 1..3, x \in {5}} \cup {<<"wset", j, x>> : j \in 1..2, x \in {5}}
  \cup {<<op>> : op \in {"eget", "epart", "vget", "tget", "wget"}} \cup {<<"dist", <<3, -4, 5, 6, 7, 8>>, w>> : w \in 0..4} \cup {<<"load", <<9, 8, 7, 6, 5, 4>>>>}""", invariants=["MInv"], constraint="Lim", tag="e")
    k.replay(exe, ed, "every transition on single samples", maxlen=300)
    R = lambda m: k.rng.randrange(-m, m + 1)
    scripts = []
    for _ in range(400 if k.thorough else 80):
        sc = []
        def path(n):
            x, y, q = R(20), R(20), []
            for _ in range(n):
                q.append([x, y, R(9)])
                d = R(9); sx, sy = k.rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (0, 0)])
                x += d * sx; y += d * sy
            return q
        def odo(n): return [[R(99) for _ in range(6)] for _ in range(n)]
        for j in range(50):
            f, a, b = k.rng.randrange(2), k.rng.randrange(2), k.rng.randrange(2)
            el = lambda: [R(99) for _ in range(6 if f else 3)]
            sc.append(k.rng.choice([["vec", f, a, k.rng.randrange(2), odo(k.rng.randrange(5)) if f else path(k.rng.randrange(7))], ["vec", 0, 0, 0, path(1 + k.rng.randrange(8))], ["path", 0, k.rng.randrange(2), R(25), R(25)], ["path", 0, k.rng.randrange(2), R(25), R(25)], ["path", 0, 0, R(25), R(25)],
                                    ["cat", f, a, b] if j % 5 == 0 else ["size", f, a], ["cut", f, a, k.rng.randrange(9)], ["grow", f, a, el()], ["at", f, a, k.rng.randrange(6)], ["set", f, a, k.rng.randrange(6), el()], ["front", f, a], ["back", f, a],
                                    ["poses", a, b], ["twists", a], ["load", odo(1)[0]], ["eset", 1 + k.rng.randrange(6), R(99)], ["vset", 1 + k.rng.randrange(3), R(99)], ["tset", 1 + k.rng.randrange(3), R(99)], ["wset", 1 + k.rng.randrange(2), R(99)],
                                    [k.rng.choice(["eget", "epart", "vget", "tget", "wget"])], ["dist", odo(1)[0], k.rng.randrange(5)]]))
        # front/back/path need a trajectory that is not empty: keep a length per slot
        ln = {(0, 0): 0, (0, 1): 0, (1, 0): 0, (1, 1): 0}
        cp = {0: True, 1: True}
        out = []
        for c in sc:
            o = c[0]
            if o in ("front", "back", "at", "set") and ln[(c[1], c[2])] == 0: continue
            if o == "path" and (ln[(0, c[1])] == 0 or not cp[c[1]]): continue
            if o == "cat" and ln[(c[1], c[2])] + ln[(c[1], c[3])] > 40: continue
            out.append(c)
            if o == "vec": ln[(c[1], c[2])] = len(c[4])
            if o == "cat": ln[(c[1], c[2])] += ln[(c[1], c[3])]
            if o == "cut": ln[(c[1], c[2])] = min(c[3], ln[(c[1], c[2])])
            if o == "grow": ln[(c[1], c[2])] += 1
            if o == "poses": ln[(0, c[1])] = ln[(1, c[2])]
            if o in ("vec",) and c[1] == 0: cp[c[2]] = True
            if o in ("cat", "grow", "set") and c[1] == 0: cp[c[2]] = False
            if o == "poses": cp[c[1]] = False
        scripts.append(out)
    k.validate("OdomS", exe, scripts, "random trajectories", invariants=["MInv"], extra_defs="MInv == Inv(s)")
    k.validate("OdomS", rel, scripts[:40], "random trajectories, release build", invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=2)
    k.assumptions.append("distances to a path are exercised where they are exact: segments along the eight compass directions; an empty path has no distance and is not driven")
