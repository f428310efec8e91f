from vlib import *

EXC = ["ecl_exceptions/src/lib/*.cpp"]


def run(k):
    exe = k.build("push_and_pop", EXC)
    edges = k.mc("PushAndPop", r"""
MCView == TRUE
Inv == RingOK(s.a) /\ RingOK(s.b)
""", cmds=r"""
  IF s.a.kind = "none" THEN {<<"new", "a", kd, cap, v>> : kd \in {"fi", "di", "fs", "ds"}, cap \in 1..3, v \in {-1, 9}}
  ELSE {<<"push", "a", v>> : v \in 1..2} \cup {<<"pop", "a">>, <<"clear", "a">>, <<"asize", "a">>, <<"fill", "a", 9>>}
       \cup {<<"at", "a", i>> : i \in 0..(Size(s.a) - 1)} \cup {<<"put", "a", i, 1>> : i \in 0..(Size(s.a) - 1)}
       \cup (IF s.a.fresh THEN {<<"raw", "a", i>> : i \in 0..(s.a.cap - 1)} ELSE {})
       \cup (IF s.a.kind \in {"di", "ds"} THEN {<<"resize", "a", n>> : n \in 1..3} ELSE {})
""", invariants=["Inv"])
    k.replay(exe, edges, "every transition of the bounded queue (capacity 1..3)", maxlen=80)
    # two objects and copying
    edges = k.mc("PushAndPop", r"""
Inv == RingOK(s.a) /\ RingOK(s.b)
Bound == TRUE
""", cmds=r"""
  IF s.a.kind = "none" THEN {<<"new", "a", kd, cap, -1>> : kd \in {"fi", "di"}, cap \in {2}}
  ELSE IF s.b.kind = "none" THEN {<<"new", "b", s.a.kind, cap, -1>> : cap \in IF s.a.kind = "di" THEN 1..2 ELSE {2}}
  ELSE {<<"push", x, 1>> : x \in {"a", "b"}} \cup {<<"push", "a", 2>>} \cup {<<"pop", "b">>, <<"pop", "a">>, <<"copy", "b", "a">>}
""", invariants=["Inv"], tag="copy")
    k.replay(exe, edges, "copying between queues", maxlen=80)
    # long random histories, wide capacities
    scripts = []
    n = 400 if k.thorough else 60
    for _ in range(n):
        kd = k.rng.choice(["fi", "di", "fs", "ds"])
        cap = k.rng.choice([1, 2, 3, 4, 7, 16])
        fill = k.rng.choice([-1, 0, 55])
        sc = [["new", "a", kd, cap, fill], ["new", "b", kd, cap if kd[0] == "f" else k.rng.choice([1, 5, 9]), -1]]
        st = {"a": [0, cap], "b": [0, sc[1][3]]}
        v = 0
        bias = k.rng.random()
        for _ in range(120):
            x = "a" if k.rng.random() < .8 else "b"
            u = k.rng.random()
            m, cp = st[x]
            if u < .35 + .3 * bias:
                v += 1
                sc.append(["push", x, v]); st[x][0] = min(cp, m + 1)
            elif u < .85:
                sc.append(["pop", x]); st[x][0] = max(0, m - 1)
            elif u < .89 and m:
                sc.append(["at", x, k.rng.randrange(m)])
            elif u < .92 and m:
                sc.append(["put", x, k.rng.randrange(m), 900 + k.rng.randrange(50)])
            elif u < .93:
                sc.append(["fill", x, 7])
            elif u < .94:
                sc.append(["clear", x]); st[x][0] = 0
            elif u < .96 and kd[0] == "d":
                nc = k.rng.randrange(1, 12)
                sc.append(["resize", x, nc]); st[x] = [0, nc]
            elif u < .98:
                y = "b" if x == "a" else "a"
                sc.append(["copy", x, y]); st[x] = list(st[y])
        scripts.append(sc)
    k.validate("PushAndPop", exe, scripts, "random histories", invariants=["Inv"],
               extra_defs="Inv == RingOK(s.a) /\\ RingOK(s.b)")
