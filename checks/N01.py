from vlib import *
LIB = ["ecl_type_traits/src/lib/*.cpp"]
TRIP = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (0, 9, 9), (6, 0, 6), (0, 0, 0), (119, 120, 169)]
QUAD = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (4, 4, 7, 9), (2, 6, 9, 11), (0, 3, 4, 5), (0, 0, 5, 5), (12, 0, 5, 13), (0, 0, 0, 0)]


def run(k):
    exe = k.build("maths", LIB, san="address,undefined")
    trip = "{" + ", ".join("<<\"norm2\", %d, %d, %d>>" % (sa * a, sb * b, r) for (x, y, r) in TRIP for (a, b) in ((x, y), (y, x)) for sa in (1, -1) for sb in (1, -1)) + "}"
    perms = lambda q: {(q[i], q[j], q[l]) for i in range(3) for j in range(3) for l in range(3) if len({i, j, l}) == 3}
    quad = "{" + ", ".join("<<\"norm3\", %d, %d, %d, %d>>" % (sa * a, sb * b, sc * d, q[3]) for q in QUAD for (a, b, d) in sorted(perms(q)) for sa in (1, -1) for sb in (1, -1) for sc in (1, -1)) + "}"
    edges = k.mc("MathS", "", cmds=r"""
 {<<op, n>> : op \in {"sign", "psign", "nsign"}, n \in (-5..5) \cup {100000, -100000}}
 \cup {<<"cube", r>> : r \in -40..40}
 \cup %s \cup %s
 \cup {<<"approx", x, y, p>> : x \in -12..12, y \in -12..12, p \in {0, 1, 2, 4, 8}}
 \cup {<<"leq", x, y, p>> : x \in -12..12, y \in -12..12, p \in {0, 1, 2, 4, 8}}
 \cup {<<op, x, y>> : op \in {"iapprox", "ileq"}, x \in -6..6, y \in -6..6}
 \cup {<<"mapprox", x, y, p>> : x \in -6..6, y \in -25..25, p \in {0, 1, 2, 4, 8}}
 \cup {<<"const", n>> : n \in {"pi", "two_pi", "pi_2", "pi_4", "pi_f", "two_pi_f", "pi_2_f", "pi_4_f"}}
""" % (trip, quad))
    k.replay(exe, edges, "bounded arguments, exhaustively", maxlen=2000)
    sc = []
    for _ in range(20000 if k.thorough else 3000):
        x = k.rng.randrange(-4000, 4000)
        sc.append(k.rng.choice([["approx", x, x + k.rng.randrange(-900, 900), k.rng.randrange(0, 9)], ["leq", x, x + k.rng.randrange(-900, 900), k.rng.randrange(0, 9)],
                                ["sign", k.rng.randrange(-9999999, 9999999)], ["psign", k.rng.randrange(-99999, 99999)], ["nsign", k.rng.randrange(-99999, 99999)], ["cube", k.rng.randrange(-200, 201)]]))
    k.validate("MathS", exe, [sc[i::6] for i in range(6)], "random arguments", chunks=3)
