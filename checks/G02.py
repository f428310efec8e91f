from vlib import *
from checks_geo import GEO


def run(k):
    exe = k.build("poly", GEO)
    edges = k.mc("PolyS", "", cmds=r"""
  {<<"lin", x, y, x + d, z>> : x \in -2..2, y \in -2..2, d \in {-3, -1, 1, 2, 5}, z \in -2..2}
  \cup {<<"slope", x, y, m>> : x \in -3..3, y \in -3..3, m \in -3..3}
  \cup {<<op, x, y, u, x + d, z, v>> : op \in {"cub1", "cub2"}, x \in {-2, 0, 1}, y \in {-1, 0, 3}, u \in {-2, 0, 1}, d \in {1, 2, 3}, z \in {-2, 0, 1}, v \in {-1, 0, 2}}
  \cup {<<"quin", x, y, u, w, x + d, z, v, t>> : x \in {-1, 0, 2}, y \in {0, 3}, u \in {-2, 0, 1}, w \in {-1, 0, 2}, d \in {1, 2}, z \in {-2, 0}, v \in {-1, 0, 2}, t \in {-3, 0, 1}}
""")
    k.replay(exe, edges, "boundary conditions, exhaustively", maxlen=2000)
    sc = []
    R = lambda n: k.rng.randrange(-n, n + 1)
    for _ in range(12000 if k.thorough else 2500):
        x, d = R(6), k.rng.choice([-4, -3, -2, -1, 1, 2, 3, 4, 7])
        sc.append(k.rng.choice([["lin", x, R(500), x + d, R(500)], ["slope", x, R(500), R(90)], ["cub1", x, R(90), R(20), x + d, R(90), R(20)],
                                ["cub2", x, R(90), R(20), x + d, R(90), R(20)], ["quin", R(3), R(60), R(20), R(9), 0, R(60), R(20), R(9)]]))
        if sc[-1][0] == "quin":
            sc[-1][5] = sc[-1][1] + k.rng.choice([-2, 1, 2, 3])
    k.validate("PolyS", exe, [sc[i::6] for i in range(6)], "random boundary conditions", chunks=3)
