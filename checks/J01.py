from vlib import *
SRC = ["ecl_manipulators/src/lib/*.cpp", "ecl_exceptions/src/lib/*.cpp", "ecl_geometry/src/lib/*spline*.cpp", "ecl_geometry/src/lib/tension_function.cpp", "ecl_geometry/src/lib/polynomial*.cpp",
       "ecl_geometry/src/lib/pascals_triangle.cpp", "ecl_geometry/src/lib/linear_segment.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]


def run(k):
    dbg, rel = k.builds([("traj", SRC, {}), ("traj", SRC, dict(flags=["-DNDEBUG"], opt="-O2", out="traj_rel"))])
    cm = r"""{<<"w", 0, 1>>, <<"w", 1, 2>>, <<"wcopy", 1, 0>>, <<"wassign", 0, 1>>, <<"wdim", 0, 2>>, <<"angles", 0, <<250>>>>, <<"angles", 0, <<1000, -500>>>>, <<"rates", 0, <<125>>>>, <<"accs", 0, <<500>>>>, <<"nom", 0, 2000>>,
      <<"dur", 0, 1000>>, <<"name", 0, "x">>, <<"wshow", 0>>, <<"wtext", 0>>, <<"cmp", 0, 1, 300>>, <<"t", 0, 1>>, <<"tdim", 0, 2>>, <<"append", 0, 0>>, <<"append", 0, 1>>, <<"acc", 0, 1000>>, <<"clear", 0>>, <<"tshow", 0>>, <<"at", 0, 0>>, <<"at", 0, 1>>, <<"last", 0>>,
      <<"linear", 0>>, <<"tension", 0, 1000>>, <<"facts", 0>>}"""
    e = k.mc("TrajS", "", cmds=cm, constraint="(TLCGet(\"level\") <= %d)" % (6 if k.thorough else 5))
    k.replay(dbg, e, "waypoints and trajectories", maxlen=300)
    r = k.rng
    V = lambda d, f: [f() for _ in range(d)]

    def hist(debug):
        s = [["mode", int(debug)]]; wd = {}; td = {}; n = {}
        while len(s) < 60:
            i = r.randrange(4); j = r.randrange(4); t = r.randrange(2); q = lambda: r.choice([0, 1000, -500, 125 * r.randrange(-40, 40), 125 * r.randrange(-40, 40), r.randrange(-3000, 3000)])
            x = r.choice(["w", "wcopy", "wassign", "wdim", "angles", "angles", "rates", "accs", "noms", "nom", "dur", "name", "wshow", "wshow", "cmp", "cmp", "wtext", "t", "tdim", "append", "append", "append", "acc", "accj", "clear", "tshow", "tshow", "at", "at", "last"])
            if x == "w": wd[i] = r.choice([-1, 0, 1, 2, 2, 3]); s.append([x, i, wd[i]]); wd[i] = max(0, wd[i])
            elif x == "t": td[t] = r.choice([-1, 1, 2, 2]); s.append([x, t, td[t]]); td[t] = max(0, td[t]); n[t] = 0
            elif x in ("wcopy", "wassign"):
                if j in wd and (x == "wcopy" or i in wd): wd[i] = wd[j]; s.append([x, i, j])
            elif x in ("t", "tdim", "append", "acc", "accj", "clear", "tshow", "at", "last"):
                if t not in td: continue
                if x == "tdim": td[t] = r.randrange(1, 4); n[t] = 0; s.append([x, t, td[t]])
                elif x == "append":
                    if i in wd and (debug or wd[i] == td[t]): s.append([x, t, i]); n[t] += wd[i] == td[t]
                elif x == "acc": s.append([x, t, r.randrange(1, 5000)])
                elif x == "accj": s.append([x, t, V(td[t], lambda: r.randrange(1, 5000))])
                elif x == "clear": s.append([x, t]); n[t] = 0
                elif x == "tshow": s.append([x, t])
                elif x == "at":
                    m = r.randrange(n[t] + (2 if debug else 0)) if debug or n[t] else None
                    if m is not None: s.append([x, t, m])
                elif n[t]: s.append([x, t])
            elif i in wd:
                if x == "wdim": wd[i] = r.randrange(4); s.append([x, i, wd[i]])
                elif x in ("angles", "noms"): s.append([x, i, V(wd[i], q)])
                elif x in ("rates", "accs"): s.append([x, i, V(wd[i], lambda: 125 * r.randrange(-40, 40))])
                elif x in ("nom", "dur"): s.append([x, i, q()])
                elif x == "name": s.append([x, i, r.choice(["arm", "a", "Left"])])
                elif x == "wshow": s.append([x, i])
                elif x == "wtext" and wd[i]:
                    s += [["angles", i, V(wd[i], lambda: 125 * r.randrange(-80, 80))], ["noms", i, V(wd[i], lambda: 125 * r.randrange(1, 80))], ["rates", i, V(wd[i], lambda: 125 * r.randrange(-9, 9))], ["accs", i, V(wd[i], lambda: 125 * r.randrange(-9, 9))]][:r.choice([2, 4])]
                    s.append([x, i])
                elif x == "cmp" and j in wd and wd[j] == wd[i]:
                    if r.random() < .5: b = V(wd[i], q); s += [["angles", i, b], ["angles", j, [y + r.choice([0, 0, 5, 8, -9, 12, 300]) for y in b]]]
                    s.append([x, i, j, r.choice([4, 7, 20, 499])])
        return s

    def path(kind, debug):
        s = [["mode", int(debug)]]; d = r.choice([1, 1, 2, 3]); n = r.choice([2, 3, 4, 5, 7]) if kind == "linear" else r.choice([5, 6, 8])
        s.append(["t", 0, d])
        for rounds in range(r.choice([1, 1, 2])):
            if rounds: s.append(["clear", 0])
            for i in range(n):
                s += [["w", 0, d], ["angles", 0, V(d, lambda: r.choice([0, 1000, 2000, -1500, r.randrange(-4000, 4000)]))]]
                if r.random() < .5: s.append(["nom", 0, r.choice([1000, 500, 2000, 300])])
                s.append(["dur", 0, r.choice([500, 1000, 3000])])
                if i in (0, n - 1) and r.random() < .5: s.append(["rates", 0, V(d, lambda: r.choice([0, 300, -400, 1000]))])
                s.append(["append", 0, 0])
            if r.random() < .7: s.append(["acc", 0, r.choice([300, 800, 1000, 2000, 5000])])
            else: s.append(["accj", 0, V(d, lambda: r.choice([300, 800, 1000, 2000, 5000]))])
            s.append([kind, 0] + ([r.choice([1000, 4000, 10000])] if kind == "tension" else [])); s.append(["facts", 0])
            if debug: s.append(["outside", 0])
            if r.random() < .2: s += [[kind, 0] + ([1000] if kind == "tension" else []), ["facts", 0]]
            if r.random() < .3: s += [["at", 0, i] for i in range(n)] + [["last", 0], ["tshow", 0]]
        return s

    def wrong(kind):
        # what cannot be interpolated: too few, no nominal rate, no time
        s = [["mode", 1], ["t", 0, 2], ["acc", 0, 1000]]; least = 2 if kind == "linear" else 5; what = r.randrange(3); n = r.randrange(least) if what == 0 else r.randrange(least, least + 3); m = r.randrange(max(1, n - 1))
        for i in range(n):
            s += [["w", 0, 2], ["angles", 0, [5 if what == 2 and i == m + 1 else 5 if what == 2 and i == m else 500 * i + 1000, 5 if what == 2 and i in (m, m + 1) else -700 * i]]]
            if not (what == 2 and i == m) and r.random() < .8: s.append(["dur", 0, 2000])
            if what == 1 and i == m: s.append(r.choice([["noms", 0, [1000, 0]], ["noms", 0, [0, 1000]], ["nom", 0, -100], ["wdim", 0, 2]]))
            s.append(["append", 0, 0])
        return s + [[kind, 0] + ([1000] if kind == "tension" else [])]
    N = 1200 if k.thorough else 150
    k.validate("TrajS", dbg, [hist(1) for _ in range(N)], "random waypoints and trajectories", chunks=6)
    k.validate("TrajS", dbg, [wrong(x) for _ in range(N // 2) for x in ("linear", "tension")], "waypoints that cannot be interpolated", chunks=2)
    k.validate("TrajS", dbg, [path(x, 1) for _ in range(N) for x in ("linear", "tension")], "random trajectories", chunks=4)
    k.validate("TrajS", rel, [path(x, 0) for _ in range(N) for x in ("linear", "tension")], "random trajectories, release build", chunks=4)
