from vlib import *
SRC = ["ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/timestamp_pos.cpp", "ecl_time/src/lib/frequency.cpp", "ecl_exceptions/src/lib/*.cpp"]
F = ["-DVERIF_VIRTUAL_TIME", "-DECL_HAS_TIMESTAMP"]


def run(k):
    exe, nort = k.builds([("freq", SRC, dict(flags=F + ["-DECL_HAS_RT_TIMERS"])), ("freq", SRC, dict(flags=F, out="freq_nort"))])
    e = k.mc("FreqS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= %d" % (9 if k.thorough else 6), cmds=r"""
  {<<op, 0>> : op \in {"update", "analyse", "diag"}} \cup {<<"tick", n, 3>> : n \in {1, 5, 16}} \cup {<<"new", 0, 8, 0>>}""", invariants=["MInv"], constraint="Lim", tag="a")
    k.replay(exe, e, "every history, monotonic clock", maxlen=300, limit=None if k.thorough else 1000)
    k.replay(nort, e, "every history, no realtime timers", maxlen=300, limit=None if k.thorough else 500)
    e = k.mc("FreqS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= %d" % (8 if k.thorough else 5), cmds=r"""
  {<<op, 1>> : op \in {"update", "analyse", "diag"}} \cup {<<"update", 0>>} \cup {<<"tick", 2, n>> : n \in {0, 1, 5, 16, 40}} \cup {<<"new", 1, 8, 1>>}""", invariants=["MInv"], constraint="Lim", tag="b")
    k.replay(exe, e, "every history, realtime clock", maxlen=300, limit=None if k.thorough else 1000)
    r = k.rng
    scripts = []
    for i in range(500 if k.thorough else 100):
        sc = []
        for j in range(100):
            a = r.randrange(2)
            sc.append(r.choice([["update", a], ["update", a], ["analyse", a], ["diag", a], ["tick", r.randrange(r.choice([2, 20])), r.randrange(r.choice([2, 20]))], ["tick", r.randrange(4), r.randrange(4)], ["new", a, r.randrange(1, 40), a if r.random() < .7 else 1 - a] if r.random() < .2 else ["update", a]]))
        scripts.append(sc)
    k.validate("FreqS", exe, scripts, "random monitors", invariants=["MInv"], extra_defs="MInv == Inv(s)")
    k.assumptions.append("both clocks are the driver's own and advance in eighths of a second, never backwards")
