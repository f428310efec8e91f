from vlib import *
EXC = ["ecl_exceptions/src/lib/*.cpp"]


def run(k):
    jobs = [("fifo", EXC, dict(flags=["-DVT=int"], out="fi")), ("fifo", EXC, dict(flags=["-DVT=std::string", "-include", "string"], out="fs"))]
    exes = k.builds(jobs)
    edges = k.mc("FiFo", "Inv == RingOK(s)", cmds=r"""
  IF s.n = 0 THEN {<<"new", n, v>> : n \in 1..%d, v \in {-1, 1}}
  ELSE {<<"push", v>> : v \in 1..2} \cup {<<"fill", 2>>, <<"idx">>} \cup {<<"at", i>> : i \in {j \in 0..(s.n - 1) : s.q[j + 1] # Unk}}
    \cup {<<"put", i, 2>> : i \in 0..(s.n - 1)} \cup (IF Known(s) THEN {<<"all">>} ELSE {}) \cup {<<"resize", n>> : n \in 1..3}
""" % (5 if k.thorough else 4), invariants=["Inv"])
    for e in exes:
        k.replay(e, edges, "every transition of the window (length 1..4), %s" % os.path.basename(e))
    scripts = []
    for _ in range(300 if k.thorough else 80):
        n = k.rng.choice([1, 2, 3, 5, 8, 13])
        fill = k.rng.choice([-1, 3])
        sc = [["new", n, fill]]
        kn = n if fill >= 0 else 0
        v = 10
        for _ in range(100):
            u = k.rng.random()
            if u < .6:
                v += 1
                sc.append(["push", v]); kn = min(n, kn + 1)
            elif u < .75 and kn == n:
                sc.append(["all"])
            elif u < .85 and kn:
                sc.append(["at", n - 1 - k.rng.randrange(kn)])
            elif u < .9 and kn:
                sc.append(["put", n - 1 - k.rng.randrange(kn), k.rng.randrange(9)])
            elif u < .94:
                sc.append(["idx"])
            elif u < .96:
                sc.append(["fill", k.rng.randrange(9)]); kn = n
            elif u < .98:
                n = k.rng.randrange(1, 15)
                sc.append(["resize", n]); kn = 0
        scripts.append(sc)
    for e in exes:
        k.validate("FiFo", e, scripts, "random histories, %s" % os.path.basename(e), invariants=["Inv"], extra_defs="Inv == RingOK(s)", chunks=2)
