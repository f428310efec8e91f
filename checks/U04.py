from vlib import *
KINDS = [b + v for b in "nf uf buf nm um bnm pbu bum pbb ncopy nref ucopy uref".split() for v in ("", "v")]


def run(k):
    exe = k.build("funcobj", [])
    ks = "{" + ", ".join('"%s"' % x for x in KINDS) + "}"
    edges = k.mc("FuncObj", "Small == s.g < 12 /\\ s.fs < 12 /\\ s.m[1] < 20 /\\ s.m[2] < 20 /\\ s.slot[1].n < 12", cmds=r"""
 IF s.slot[1].k = "none" THEN {<<"make", 1, kd, o, a>> : kd \in %s, o \in 1..2, a \in {3}} \cup (IF s.fs = 0 THEN {<<"setf", 5>>} ELSE {})
 ELSE {<<"call", 1, o, a, 2>> : o \in 1..2, a \in {0, 4}} \cup (IF s.m[2] < 5 THEN {<<"setm", 2, 6>>} ELSE {})
""" % ks, constraint="Small", tag="one")
    k.replay(exe, edges, "every kind of function object, bounded calls", maxlen=60)
    scripts = []
    for _ in range(500 if k.thorough else 150):
        sc = []
        have = set()
        for _ in range(50):
            i = k.rng.randrange(1, 3)
            u = k.rng.random()
            if u < .2 or i not in have:
                sc.append(["make", i, k.rng.choice(KINDS), k.rng.randrange(1, 3), k.rng.randrange(0, 50)]); have.add(i)
            elif u < .25:
                sc.append(["setg", k.rng.randrange(1000)])
            elif u < .3:
                sc.append(["setm", k.rng.randrange(1, 3), k.rng.randrange(1000)])
            elif u < .35:
                sc.append(["setf", k.rng.randrange(1000)])
            else:
                sc.append(["call", i, k.rng.randrange(1, 3), k.rng.randrange(50), k.rng.randrange(50)])
        scripts.append(sc)
    k.validate("FuncObj", exe, scripts, "random histories")
