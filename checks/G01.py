from vlib import *
from checks_geo import GEO


def run(k):
    exes = k.builds([("poly", GEO, dict(out="poly")), ("poly", GEO, dict(out="polyr", flags=["-DNDEBUG"], opt="-O2"))])
    edges = k.mc("PolyS", "MInv == Inv(s)", cmds=r"""
  IF s = <<>> THEN UNION {{<<"new", p>> : p \in [1..n -> -1..2]} : n \in 1..4} \cup {<<"new", [i \in 1..n |-> ((i * 7) %% 5) - 2]>> : n \in 5..8}
       \cup {c \in {<<"pascal", n, r>> : n \in 1..8, r \in 0..8} : c[3] <= c[2]}
       \cup {<<"pascal", 10, r>> : r \in 0..10}
  ELSE {<<"coef">>, <<"deriv">>} \cup {<<op, x>> : op \in {"at", "d", "dd"}, x \in {-3, -1, 0, 2}}
    \cup (IF Len(s) > 1 THEN {<<"show">>} ELSE {}) \cup (IF Len(s) \in 3..4 THEN {<<"div", f>> : f \in {-2, 0, 1}} ELSE {})
    \cup (IF \A i \in 1..Len(s) : s[i] \in -2..2 THEN {<<"shift", h>> : h \in {-1, 2}} ELSE {})
""".replace("%%", "%"), invariants=["MInv"], constraint=None)
    for e in exes:
        k.replay(e, edges, "every transition: small polynomials of degree 0..7, %s" % os.path.basename(e), maxlen=300)
    scripts = []
    for _ in range(400 if k.thorough else 100):
        n = k.rng.randrange(1, 9)
        big = 40 if n <= 4 else 6
        sc = [["new", [k.rng.randrange(-big, big + 1) for _ in range(n)]]]
        lim = 6 if n <= 5 else 3
        tot = 0
        for _ in range(30):
            u = k.rng.random()
            if u < .5:
                sc.append([k.rng.choice(["at", "d", "dd"]), k.rng.randrange(-lim, lim + 1)])
            elif u < .6:
                sc.append([k.rng.choice(["coef", "deriv"])])
            elif u < .7 and n > 1:
                sc.append(["show"])
            elif u < .8 and n in (3, 4):
                sc.append(["div", k.rng.randrange(-lim, lim + 1)])
            elif u < .9:
                sc.append(["put", k.rng.randrange(n), k.rng.randrange(-big, big + 1)])
            elif tot < 2:
                sc.append(["shift", k.rng.randrange(-2, 3)]); tot += 1
        scripts.append(sc)
    for e in exes:
        k.validate("PolyS", e, scripts, "random polynomials, %s" % os.path.basename(e), chunks=3)
