from vlib import *
EXC = ["ecl_exceptions/src/lib/*.cpp"]
OPS = r"""
Ops(x, mem) == LET o == s[x] n == Len(o.el) d == o.kind = "d" IN
   {<<"at", x, i>> : i \in {j \in 0..(n + 2) : j >= n \/ o.el[j + 1] # Unk}} \cup {<<"at", x, 2000000000>>}
   \cup {<<"idx", x, i>> : i \in {j \in 0..(n + 1) : j >= n \/ o.el[j + 1] # Unk}}
   \cup {<<"put", x, i, v>> : i \in 0..n, v \in 1..2}
   \cup (IF (n = 0 /\ o.null) \/ (n > 0 /\ o.el[1] # Unk) THEN {<<"front", x>>} ELSE {})
   \cup (IF (n = 0 /\ o.null) \/ (n > 0 /\ o.el[n] # Unk) THEN {<<"back", x>>} ELSE {})
   \cup (IF Known(o) THEN {<<"iter", x>>, <<"riter", x>>, <<"print", x>>} ELSE {})
   \cup (IF d \/ n > 0 THEN {<<"init", x, q>> : q \in {<<1>>, <<1, 2>>, <<2, 1, 2>>, <<1, 1, 2, 2>>}} ELSE {})
   \cup (IF d THEN {<<"resize", x, m>> : m \in 1..3} \cup {<<"clear", x>>} ELSE {})
   \cup {<<"reconst", x, m, 2>> : m \in IF d THEN 1..2 ELSE {0}}
   \cup (IF mem /\ n > 0 THEN {<<"guard", x>>, <<"smash", x, "lo">>, <<"smash", x, "hi">>} ELSE {})
"""
ONE = r"""IF s.a.kind = "none" THEN {<<"new", "a", kd, n>> : kd \in {"d"}, n \in 0..3} \cup {<<"new", "a", "f", n>> : n \in 1..3}
        \cup {<<"const", "a", kd, n, 1>> : kd \in {"f", "d"}, n \in 1..3}
     ELSE Ops("a", %s)"""
TWO = r"""IF s.a.kind = "none" THEN {<<"new", "a", "d", n>> : n \in 0..1} \cup {<<"const", "a", kd, 2, 1>> : kd \in {"f", "d"}}
     ELSE IF s.b.kind = "none" THEN {<<"const", "b", "f", 2, 2>> : x \in {1} \cap (IF s.a.kind = "f" THEN {1} ELSE {})}
        \cup {<<"const", "b", "d", 1, 2>> : x \in {1} \cap (IF s.a.kind = "d" THEN {1} ELSE {})}
        \cup {<<"copy", "b", "a">>}
     ELSE {<<"assign", x, y>> : x \in {"a", "b"}, y \in {"a", "b"} } \cup {<<"copy", "b", "a">>} 
        \cup UNION {LET o == s[x] IN {<<"put", x, i, 3>> : i \in 0..(Len(o.el) - 1)} \cup (IF Known(o) THEN {<<"iter", x>>} ELSE {})
             \cup (IF o.kind = "d" THEN {<<"clear", x>>, <<"resize", x, 2>>} ELSE {}) : x \in {"a", "b"}}
        \cup %s"""
SELF = r"""
Iso == \A c \in MCmds : \A o \in Step(s, c) : Isolated(s, c, o.s)
"""


def run(k):
    jobs = [("array", EXC, dict(flags=["-DVT=int"], out="ai")),
            ("array", EXC, dict(flags=["-DVT=std::string", "-include", "string"], out="as")),
            ("array", EXC, dict(flags=["-DVT=int", "-DECL_MEM_CHECK_ARRAYS"], out="am", san=""))]
    if k.thorough:
        jobs += [("array", EXC, dict(flags=["-DVT=unsigned char", "-DECL_MEM_CHECK_ARRAYS"], out="amc", san="")),
                 ("array", EXC, dict(flags=["-DVT=double"], out="ad"))]
    exes = k.builds(jobs)
    edges = k.mc("ArrayC", OPS, cmds=ONE % "FALSE", tag="one")
    edges2 = k.mc("ArrayC", "", cmds=TWO % "{}", post=SELF, invariants=["Iso"], tag="two")
    medges = k.mc("ArrayC", OPS, cmds=ONE % "TRUE", tag="mem")
    for i, exe in enumerate(exes):
        mem = os.path.basename(exe).startswith("am")
        k.replay(exe, medges if mem else edges, "one array, %s" % os.path.basename(exe))
        k.replay(exe, edges2, "two arrays, %s" % os.path.basename(exe))
    scripts = []
    for _ in range(300 if k.thorough else 60):
        scripts.append(walk(k.rng))
    for exe in exes:
        k.validate("ArrayC", exe, scripts, "random histories, %s" % os.path.basename(exe), chunks=2)


def walk(rng):
    kind = rng.choice("fd")
    sz = {}
    known = {}
    sc = []
    fixedn = rng.choice([1, 2, 3, 4, 8])
    for x in "ab":
        n = fixedn if kind == "f" else rng.randrange(1, 12)
        if rng.random() < .5:
            v = rng.randrange(100)
            sc.append(["const", x, kind, n, v]); known[x] = [True] * n
        else:
            sc.append(["new", x, kind, n]); known[x] = [False] * n
    for _ in range(80):
        x = rng.choice("ab")
        y = "b" if x == "a" else "a"
        kn = known[x]
        n = len(kn)
        u = rng.random()
        if u < .25:
            i = rng.randrange(0, n + 3)
            if i >= n or kn[i]:
                sc.append([rng.choice(["at", "idx"]), x, i])
        elif u < .5:
            i = rng.randrange(0, n + 1)
            sc.append(["put", x, i, rng.randrange(200)])
            if i < n:
                kn[i] = True
        elif u < .6 and n:
            m = rng.randrange(1, 6)
            sc.append(["init", x, [rng.randrange(100) for _ in range(m)]])
            for i in range(min(m, n)):
                kn[i] = True
        elif u < .75 and n and all(kn):
            sc.append([rng.choice(["iter", "riter", "print", "front", "back"]), x])
        elif u < .8 and kind == "d":
            m = rng.randrange(1, 12)
            sc.append(["resize", x, m]); known[x] = [False] * m
        elif u < .83 and kind == "d":
            sc.append(["clear", x]); known[x] = []
        elif u < .9:
            z = x if rng.random() < .2 else y
            sc.append(["assign", x, z] if z == x else [rng.choice(["assign", "copy"]), x, y])
            if z == y:
                known[x] = list(known[y])
        elif u < .93:
            m = rng.randrange(1, 9) if kind == "d" else 0
            sc.append(["reconst", x, m, rng.randrange(9)]); known[x] = [True] * (m if kind == "d" else n)
    return sc
