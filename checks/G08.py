from vlib import *
from checks_geo import GEO


def run(k):
    exe = k.build("poly", GEO)
    edges = k.mc("PolyS", "", cmds=r"""
  {<<op, a, r>> : op \in {"rlin", "rquadl", "rcubl"}, a \in -3..3, r \in -4..4}
  \cup {<<op, a, r, t>> : op \in {"rquad", "rcubq"}, a \in {-2, -1, 1, 3}, r \in -4..4, t \in -4..4}
  \cup {<<"rquad0", a, h, m>> : a \in {-2, 1, 3}, h \in -3..3, m \in {1, 2, 5}}
  \cup {c \in {<<"rcub", a, r, t, u>> : a \in {-2, -1, 1, 3}, r \in -4..4, t \in -4..4, u \in -4..4} :
           Cardinality({c[3], c[4], c[5]}) = 3 \/ (c[3] + c[4] + c[5]) % 3 = 0}
  \cup {<<"rcub1", a, r, h, m>> : a \in {-2, 1, 3}, r \in -3..3, h \in -3..3, m \in {1, 3, 4}}
  \cup {<<"elin", lo, lo + w, a, b>> : lo \in {-3, 0, 2}, w \in {0, 1, 4}, a \in -2..2, b \in -2..2}
  \cup {<<"ecub", lo, lo + w, Pad4(p)>> : lo \in -4..2, w \in {0, 1, 3, 7}, p \in
         {<<d, 6 * m * r * t, -3 * m * (r + t), 2 * m>> : d \in {0, 5}, m \in {-1, 1}, r \in {-2, 0, 1}, t \in {-1, 0, 3}}
         \cup {<<m * h * h + d, -2 * m * h, m>> : d \in {0, 3}, m \in {-2, -1, 1}, h \in {-2, 0, 1}}
         \cup {<<d, m>> : d \in {-1, 2}, m \in {-2, 0, 3}} \cup {<<d, m * e, 0, m>> : d \in {0, 2}, m \in {-1, 2}, e \in {0, 1, 4}}}
  \cup {c \in {<<"cross", a, b, e, f>> : a \in -4..4, b \in -3..3, e \in -4..4, f \in -3..3} : c[5] = c[3] \/ (c[2] - c[4]) % Abs(c[5] - c[3]) = 0}
""")
    k.replay(exe, edges, "roots, extrema and intersections, exhaustively", maxlen=3000)
    sc = []
    R = lambda n: k.rng.randrange(-n, n + 1)
    for _ in range(12000 if k.thorough else 2500):
        r, t, u = R(30), R(30), R(30)
        m, d = k.rng.choice([-2, -1, 1, 2, 3]), R(50)
        lo = R(9)
        rr, tt = R(6), R(6)
        b, f = R(9), R(9)
        x = R(20)
        a = R(50)
        sc.append(k.rng.choice([["rquad", m, r, t], ["rcubq", m, r, t], ["rquad0", m, r, 1 + abs(t)], ["rcub1", m, rr, tt, 1 + abs(d)], ["rlin", m, r],
                                ["rcub", m, rr, rr + 1 + abs(tt), rr - 1 - abs(R(5))], ["rcub", m, tt + 2 * rr, tt - rr, tt - rr],
                                ["ecub", lo, lo + k.rng.randrange(12), [d, 6 * m * rr * tt, -3 * m * (rr + tt), 2 * m]], ["ecub", lo, lo + k.rng.randrange(12), [d, -2 * m * rr, m, 0]],
                                ["elin", lo, lo + k.rng.randrange(12), d, m], ["ecubs", lo, lo + k.rng.randrange(12), [d, -2 * m * rr, m, 0], k.rng.randrange(50, 80), k.rng.choice([-1, 1])], ["rquads", m, r, k.rng.randrange(50, 100), k.rng.choice([-1, 1])], ["cross", a, b, a + (b - f) * x, f]]))
    k.validate("PolyS", exe, [sc[i::6] for i in range(6)], "random roots, extrema, intersections", chunks=3)
