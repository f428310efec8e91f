from vlib import *
SRC = ["ecl_geometry/src/lib/angle.cpp", "ecl_exceptions/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]


def run(k):
    var = [("m", 0, "double"), ("a", 1, "double"), ("v", 2, "double")] + [("mf", 0, "float"), ("vf", 2, "float")]
    exes = dict(zip([v[0] for v in var], k.builds([("pose", SRC, dict(out="pose_" + n, flags=["-DVP=%d" % p, "-DVT=" + t])) for n, p, t in var])))
    plane = r"""{<<"set", k, w, x, y, q>> : k \in {0, 1}, w \in 0..4, x \in {0, 1}, y \in {0, -1}, q \in %s}
  \cup {<<op, a, b>> : op \in {"mul", "rel", "copy"}, a \in {0, 1}, b \in {0, 1}} \cup {<<"imul", a, b, w>> : a \in {0, 1}, b \in {0, 1}, w \in {0, 1}}
  \cup {<<"ident", k, w>> : k \in {0, 1}, w \in {0, 1}} \cup {<<op, k>> : op \in {"get", "inv"}, k \in {0, 1}}
  \cup {<<op, k, v>> : op \in {"x", "y"}, k \in {0, 1}, v \in {1}} \cup {<<"head", 0, w, q>> : w \in 0..3, q \in %s} \cup {<<"trans", 0, w, 1, 2>> : w \in 0..2}"""
    lim = "Lim == \\A k \\in 1..2 : s.p[k][1] \\in %s /\\ s.p[k][2] \\in %s" % (("-2..2", "-1..1") if k.thorough else ("0..1", "-1..0"))
    edges = k.mc("PoseS", "MInv == Inv(s)\n" + lim, cmds=plane % (("-1..3", "-1..3") if k.thorough else ("{0, 1, 2}", "{-1, 2}")), invariants=["MInv"], constraint="Lim", tag="pl", workers=1)
    k.replay(exes["m"], edges, "every plane transition, matrix storage", maxlen=400, limit=None if k.thorough else 150)
    k.replay(exes["a"], edges, "every plane transition, angle storage", maxlen=400, limit=None if k.thorough else 100)
    ok = {"set", "mul", "imul", "ident", "get"}
    ve = [e for e in edges if e[1][0] in ok]
    k.replay(exes["v"], ve, "every plane transition, Pose2D", maxlen=400, limit=None if k.thorough else 150)
    e3 = k.mc("PoseS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= %d" % (4 if k.thorough else 3), cmds=r"""
  {<<"set3", 0, w, a, q, 1, 0, 2>> : w \in 0..2, a \in 1..3, q \in {1, 2}} \cup {<<"set3", 1, w, a, 3, 0, -1, 0>> : w \in 0..2, a \in {1, 3}}
  \cup {<<"get3", k>> : k \in {0, 1}} \cup {<<"inv3", k>> : k \in {0, 1}} \cup {<<op, a, b>> : op \in {"mul3", "rel3", "copy3"}, a \in {0, 1}, b \in {0, 1}} \cup {<<"imul3", a, b>> : a \in {0, 1}, b \in {0, 1}}
  \cup {<<"lift", 0, w, b>> : w \in {0, 1}, b \in {0, 1}} \cup {<<"t3", 0, 1, -1, 0>>} \cup {<<"r3", 1, a, 1>> : a \in {1, 2}} 
  \cup (IF s.p[1] = <<0, 0, 0>> THEN {<<"set", 0, 0, 1, -1, 1>>} ELSE {})
""", invariants=["MInv"], constraint="Lim", tag="sp")
    k.replay(exes["m"], e3, "every spatial transition", maxlen=400, limit=None if k.thorough else 150)
    scripts = []
    R = lambda n: k.rng.randrange(-n, n + 1)
    for _ in range(300 if k.thorough else 40):
        sc = []
        big = 50
        for j in range(60):
            a, b = k.rng.randrange(2), k.rng.randrange(2)
            if j % 12 == 0:
                for z in (0, 1):
                    sc += [["set", z, k.rng.randrange(5), R(big), R(big), k.rng.randrange(-1, 4)], ["set3", z, k.rng.randrange(3), k.rng.randrange(1, 4), k.rng.randrange(4), R(big), R(big), R(big)]]
            sc.append(k.rng.choice([["set", a, k.rng.randrange(5), R(big), R(big), k.rng.randrange(-1, 4)], ["x", a, R(big)], ["y", a, R(big)], ["head", a, k.rng.randrange(4), k.rng.randrange(-1, 4)], ["trans", a, k.rng.randrange(3), R(big), R(big)],
                                    ["get", a], ["get", b], ["inv", a], ["rel", a, b], ["mul", a, b], ["mul", a, b], ["imul", a, b, k.rng.randrange(2)], ["copy", a, b], ["ident", a, k.rng.randrange(2)] if k.rng.random() < .3 else ["get", a],
                                    ["lift", a, k.rng.randrange(2), b], ["t3", a, R(big), R(big), R(big)], ["r3", a, k.rng.randrange(1, 4), k.rng.randrange(4)], ["get3", a], ["mul3", a, b], ["imul3", a, b], ["inv3", a], ["rel3", a, b], ["copy3", a, b]]))
        scripts.append(sc)
    for n in ("m", "a", "mf"):
        k.validate("PoseS", exes[n], scripts, "random poses, " + n, invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=4)
    r = k.rng
    ps = lambda: [r.randrange(4), r.randrange(-90, 91), r.randrange(-90, 91), r.randrange(12)]
    p3 = lambda: [r.randrange(4), r.randrange(1, 4), r.randrange(12), r.randrange(1, 4), r.randrange(12), r.randrange(-9, 10), r.randrange(-9, 10), r.randrange(-9, 10)]
    anyp = [["any", f, w, 7, -13, a, w, 21, 3, b] for f in ("mul", "rel") for a in range(12) for b in range(12) for w in ((0, 1, 2, 3) if k.thorough else (a % 4,))] + [["any", f, w, -31, 4, a, 0, 0, 0, 0] for f in ("get", "inv", "lift") for a in range(12) for w in range(4)]
    anyp += [["any", f] + ps() + ps() for f in ("mul", "rel", "inv", "get", "lift") for _ in range(400 if k.thorough else 60)]
    any3 = [["any3", f, p3(), p3()] for f in ("mul", "rel", "inv", "get", "imul") for _ in range(1500 if k.thorough else 200)]
    cut = lambda x: [x[i:i + 80] for i in range(0, len(x), 80)]
    for n in ("m", "a", "mf"):
        k.validate("PoseS", exes[n], cut(anyp + any3), "poses at any angle, " + n, chunks=4)
    for n in ("v", "vf"):
        k.validate("PoseS", exes[n], cut([c for c in anyp if c[1] in ("mul", "get")]), "poses at any angle, " + n, chunks=2)
    vs = [[c for c in sc if c[0] in ok] for sc in scripts]
    for n in ("v", "vf"):
        k.validate("PoseS", exes[n], vs, "random poses, " + n, invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=2)
