from vlib import *
from checks.M02 import SRC, F


def run(k):
    exe = k.build("clock", SRC, flags=F)
    e = k.mc("ClockS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= %d" % (6 if k.thorough else 5), cmds=r"""
  {<<op, w>> : op \in {"start", "elapsed", "split"}, w \in {0, 1}} \cup {<<"tick", w, x, n>> : w \in {0, 1}, x \in {0, 2}, n \in {1, 600000000}}""", invariants=["MInv"], constraint="Lim", tag="w")
    k.replay(exe, e, "every stopwatch history", maxlen=300, limit=None if k.thorough else 1500)
    e = k.mc("ClockS", "Lim == Len(s.td) <= %d" % (4 if k.thorough else 3), cmds=r"""{<<"push", n>> : n \in {-8, 0, 3, 8, 20}} \cup {<<"clear">>} \cup (IF s.td = <<>> THEN {} ELSE {<<"stats">>})""", constraint="Lim", tag="d")
    k.replay(exe, e, "every set of durations", maxlen=300)
    r = k.rng
    scripts = []
    for _ in range(400 if k.thorough else 80):
        sc, n = [], 0
        for j in range(60):
            w = r.randrange(2)
            c = r.choice([["start", w], ["elapsed", w], ["elapsed", w], ["split", w], ["split", w], ["tick", w, r.choice([0, 0, 1, r.randrange(1000)]), r.choice([0, 1, 999999999, r.randrange(10 ** 9)])],
                          ["push", r.randrange(-200, 200)], ["push", r.randrange(9)], ["clear"] if r.random() < .3 else ["push", 8 * r.randrange(20)], ["stats"]])
            if c[0] == "stats" and not n: continue
            n = n + 1 if c[0] == "push" else 0 if c[0] == "clear" else n
            sc.append(c)
        scripts.append(sc)
    k.validate("ClockS", exe, scripts, "random watches and durations", invariants=["MInv"], extra_defs="MInv == Inv(s)")
