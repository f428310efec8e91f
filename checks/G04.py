from vlib import *
SRC = ["ecl_geometry/src/lib/angle.cpp", "ecl_geometry/src/lib/linear_segment.cpp"]


def run(k):
    exe = k.build("angle", SRC)
    n = 3 if k.thorough else 2
    edges = k.mc("AngleS", "ASSUME \\A x1 \\in -2..2, y1 \\in -2..2, x2 \\in -2..2, y2 \\in -2..2, x \\in -2..2, y \\in -2..2 : SegOK(x1, y1, x2, y2, x, y)", cmds=r"""
  {<<"line", a, b, e, d>> : a \in -4..4, b \in -4..4, e \in -4..4, d \in -4..4}
  \cup {<<"dist", a, b, e, d, x, y>> : a \in -%d..1, b \in -1..%d, e \in -1..2, d \in -2..%d, x \in -3..3, y \in -3..3}
""" % (n, n, n))
    k.replay(exe, edges, "segments and points on a grid, exhaustively", maxlen=4000)
    sc = []
    R = lambda n: k.rng.randrange(-n, n + 1)
    for _ in range(20000 if k.thorough else 3000):
        sc.append(k.rng.choice([["line", R(100), R(100), R(100), R(100)], ["dist"] + [R(20) for _ in range(6)], ["dist", R(5), R(5), R(60), R(3), R(60), R(5)]]))
    k.validate("AngleS", exe, [sc[i::6] for i in range(6)], "random segments and points", chunks=3)
