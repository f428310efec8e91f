from vlib import *


def run(k):
    exes = k.builds([("cells", [], dict(flags=["-DVT=int"], out="ci")), ("cells", [], dict(flags=["-DVT=Big"], out="cb")), ("cells", [], dict(flags=["-DVT=double"], out="cd"))])
    edges = k.mc("Cells", "", cmds=r"""
 {<<"var", i, 1>> : i \in 1..3} \cup {<<op, i, j>> : op \in {"pset", "pcall", "pctor", "pconv"}, i \in 1..2, j \in 1..2}
 \cup {<<op, i>> : op \in {"pdef", "pget"}, i \in 1..2} \cup {<<"pcopy", 1, 2>>, <<"pcopy", 2, 1>>}
 \cup {<<"ref", i, j>> : i \in 1..2, j \in 1..3}
 \cup UNION {{<<"rget", i>>, <<"raddr", i>>, <<"rset", i, 0>>, <<"rpset", i, 1>>} : i \in {n \in 1..2 : s.r[n] # 0}}
 \cup {<<"rcopy", 3 - i, i>> : i \in {n \in 1..2 : s.r[n] # 0}}
 \cup {<<"cref", 0, 2>>, <<"traits", 0>>}
""")
    for e in exes:
        k.replay(e, edges, "every transition, %s" % os.path.basename(e), maxlen=200)
    scripts = []
    for _ in range(150 if k.thorough else 60):
        sc = []
        have = set()
        for _ in range(100):
            i, j = k.rng.randrange(1, 3), k.rng.randrange(1, 4)
            op = k.rng.choice(["var", "pset", "pcall", "pctor", "pdef", "pcopy", "pget", "pconv", "ref", "rcopy", "rget", "rset", "rpset", "rpass", "raddr", "cref"])
            if op[0] == "r" and op not in ("ref", "rcopy") and i not in have:
                continue
            if op == "var":
                sc.append([op, j, k.rng.randrange(-99, 10000)])
            elif op in ("pset", "pcall", "pctor", "pconv"):
                sc.append([op, i, j])
            elif op == "pcopy":
                sc.append([op, i, 3 - i])
            elif op in ("pdef", "pget", "rget", "rpass", "raddr"):
                sc.append([op, i])
            elif op == "ref":
                sc.append([op, i, j]); have.add(i)
            elif op == "rcopy":
                if 3 - i in have:
                    sc.append([op, i, 3 - i]); have.add(i)
            elif op in ("rset", "rpset"):
                sc.append([op, i, k.rng.randrange(-99, 10000)])
            elif op == "cref":
                sc.append([op, 0, j])
        scripts.append(sc)
    for e in exes:
        k.validate("Cells", e, scripts, "random histories, %s" % os.path.basename(e), chunks=2)
