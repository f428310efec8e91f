from vlib import *
from checks_geo import GEO


def run(k):
    S = GEO + ["ecl_geometry/src/lib/angle.cpp", "ecl_mobile_robot/src/lib/*.cpp"]
    dbg, rel = k.builds([("drive", S, {}), ("drive", S, dict(flags=["-DNDEBUG"], opt="-O2", out="drive_rel"))])
    edges = k.mc("DriveS", "", cmds=r"""
  {<<"new", i, b, r>> : i \in 0..1, b \in 1..3, r \in 1..2} \cup {<<"copy", i>> : i \in 0..1}
  \cup {<<"wheels", i, l, r>> : i \in 0..1, l \in {-400, -45, 0, 30, 180}, r \in {-90, 0, 45, 180, 1000}}
  \cup {<<"rates", i, v, w>> : i \in 0..1, v \in -2..2, w \in -2..2} \cup {<<"base", 0, v, w>> : v \in -1..2, w \in {-540, -181, -90, 0, 1, 180, 190, 720}}
""", constraint="(TLCGet(\"level\") <= %d)" % (5 if k.thorough else 4), tag="k")
    k.replay(dbg, edges, "robots")
    edges = k.mc("DriveS", "", cmds=r"""{<<"drive", i, d, q>> : i \in 0..1, d \in -2..2, q \in -2..3} \cup {<<"new", 1, 3, 2>>, <<"rest">>}""", constraint="(Abs(s.p[1]) <= 3 /\\ Abs(s.p[2]) <= 3 /\\ (TLCGet(\"level\") <= 8))", tag="d")
    k.replay(rel, edges, "driving")
    edges = k.mc("DriveS", "", cmds=r"""{<<"between", x, -1, 15 * a, 0, y, 15 * b>> : x \in -2..2, y \in -3..1, a \in -30..30, b \in -13..13}""", tag="b")
    k.replay(dbg, edges, "between poses")
    r = k.rng
    def script(n):
        s = []
        for _ in range(n):
            x = r.choice(["new", "copy", "wheels", "wheels", "wheels", "base", "rates", "between", "between", "drive"]); i = r.randrange(2)
            if x == "new": s.append([x, i, r.randrange(1, 50), r.randrange(1, 50)])
            elif x == "copy": s.append([x, i])
            elif x == "between":
                q = [r.randrange(-100, 100), r.randrange(-100, 100), 15 * r.randrange(-50, 50), r.randrange(-100, 100), r.randrange(-100, 100), 15 * r.randrange(-50, 50)]
                import math
                f = (q[3] - q[0]) * math.cos(math.radians(q[2])) + (q[4] - q[1]) * math.sin(math.radians(q[2]))
                if abs(f) > 1: s.append([x] + q)
            elif x == "drive": s.append([x, i, r.randrange(-9, 10), r.randrange(-9, 10)])
            else: s.append([x, i, r.randrange(-2000, 2000), r.randrange(-2000, 2000)])
        return s
    n = 300 if k.thorough else 60
    for exe, w in ((dbg, ""), (rel, ", release build")):
        k.validate("DriveS", exe, [script(80) for _ in range(n)], "random robots" + w, chunks=4)
