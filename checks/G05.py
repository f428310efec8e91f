from vlib import *
SRC = ["ecl_geometry/src/lib/angle.cpp", "ecl_geometry/src/lib/linear_segment.cpp"]


def run(k):
    exes = k.builds([("angle", SRC, dict(out="angle_d")), ("angle", SRC, dict(out="angle_f", flags=["-DVT=float"]))])
    edges = k.mc("AngleS", "MInv == Inv(s)", cmds=r"""
  {<<op, k, d>> : op \in {"new", "assign", "degs", "rads"}, k \in {0, 1}, d \in {-180, -90, 0, 45, 90, 180, 135}}
  \cup {<<op, 0, d>> : op \in {"plusv", "minusv", "addv", "subv"}, d \in {-180, -45, 90, 315}}
  \cup {<<op, a, b>> : op \in {"plus", "minus", "add", "sub", "rot"}, a \in {0, 1}, b \in {0, 1}}
  \cup {<<op, k>> : op \in {"get", "degrees"}, k \in {0, 1}} \cup {<<op, 0, m>> : op \in {"times", "mul"}, m \in {-3, -1, 0, 2, 5}}
  \cup {<<"mat", k>> : k \in {j \in 0..1 : s[j + 1] % 90 = 0}}
  \cup (IF s = Init0 THEN {<<"wrap", d>> : d \in -1500..1500} \cup {<<"conv", d>> : d \in -400..400} ELSE {})
""", invariants=["MInv"])
    for e in exes:
        k.replay(e, edges, "every transition on multiples of 45 degrees, %s" % os.path.basename(e), maxlen=800)
    scripts = []
    R = lambda n: k.rng.randrange(-n, n + 1)
    for _ in range(300 if k.thorough else 60):
        sc = []
        for _ in range(80):
            a, b = k.rng.randrange(2), k.rng.randrange(2)
            sc.append(k.rng.choice([[k.rng.choice(["new", "assign", "degs", "rads"]), a, R(1000)], [k.rng.choice(["plusv", "minusv", "addv", "subv"]), a, R(1000)],
                                    [k.rng.choice(["plus", "minus", "add", "sub", "rot"]), a, b], [k.rng.choice(["get", "degrees"]), a],
                                    [k.rng.choice(["times", "mul"]), a, R(3)], ["wrap", R(3000)], ["conv", R(3000)]]))
        # rounding in single precision grows with each product: start again now and then
        out = []
        for j, c in enumerate(sc):
            if j % 8 == 0:
                out += [["new", 0, R(180)], ["new", 1, R(180)]]
            out.append(c)
        scripts.append(out)
    k.validate("AngleS", exes[0], scripts, "random angles", invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=2)
    k.validate("AngleS", exes[1], [[c for c in s if c[0] not in ("mul", "times") and (len(c) < 3 or abs(c[2]) < 400)] for s in scripts], "random angles, float", invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=2)
