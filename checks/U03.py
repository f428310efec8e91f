from vlib import *


def run(k):
    exes = k.builds([("singleton", [os.path.join(VERIF, "drivers/singleton2.cpp")], dict(out="sg")),
                     ("singleton", [os.path.join(VERIF, "drivers/singleton2.cpp")], dict(out="sgo", san="", opt="-O2"))])
    edges = k.mc("SingletonS", "", cmds=r"""
 {<<op, t>> : op \in {"get", "other"}, t \in 1..3} \cup {<<"set", t, 3>> : t \in 1..2} \cup {<<"race", t, 4>> : t \in 1..2}
""", post="Inv == AtMostOne(s)", invariants=["Inv"])
    for e in exes:
        k.replay(e, edges, "every transition, each in its own process, %s" % os.path.basename(e), maxlen=6)
    scripts = []
    for _ in range(400 if k.thorough else 80):
        sc = []
        for _ in range(8):
            t = k.rng.randrange(1, 4)
            op = k.rng.choice(["get", "other", "set", "race", "race"])
            sc.append([op, t] + ([k.rng.randrange(1, 99)] if op == "set" else [k.rng.choice([2, 4, 8])] if op == "race" else []))
        scripts.append(sc)
    for e in exes:
        k.validate("SingletonS", e, scripts, "random histories with racing first accesses, %s" % os.path.basename(e), chunks=1,
                   extra_defs="Inv == AtMostOne(s)", invariants=["Inv"], par=2)
    k.assumptions.append("racing first accesses are widened by a slow constructor; a lost race is repeated, not proved absent")
