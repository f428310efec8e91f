from vlib import *


def run(k):
    exe = k.build("flags", [], san="address,undefined")
    # bits 0, 1 and 31 (the sign bit), complement kept to those by masking
    edges = k.mc("FlagsS", "", cmds=r"""
 LET Q == {<<>>, <<0>>, <<1>>, <<31>>, <<0, 1>>, <<1, 31>>} IN
   UNION {{<<op, 1, q>> : q \in Q} : op \in {"fromenum", "assignenum", "iorenum", "ixorenum", "iand", "test"}}
   \cup {<<"clear", 1>>, <<"default", 1>>, <<"not", 1, 1>>, <<"not", 1, 2>>, <<"copy", 1, 2>>, <<"assign", 1, 2>>, <<"assign", 2, 1>>, <<"ior", 1, 2>>, <<"ixor", 1, 2>>, <<"ixor", 1, 1>>}
   \cup {<<op, 1, 1, 2>> : op \in {"or", "xor"}} 
   \cup UNION {{<<op, 2, 1, q>> : q \in Q} : op \in {"orenum", "enumor", "xorenum", "andenum", "andmask"}}
""", post="Small(x) == x \\subseteq {0, 1, 31} \\/ (Bits \\ x) \\subseteq {0, 1, 31}\nInv == \\A i \\in 1..3 : Val(s[i]) = Val(s[i])", invariants=["Inv"])
    k.replay(exe, edges, "every transition over bits 0, 1, 31", maxlen=200)
    scripts = []
    for _ in range(400 if k.thorough else 100):
        sc = []
        for _ in range(80):
            op = k.rng.choice(["fromenum", "copy", "assign", "assignenum", "clear", "ior", "iorenum", "ixor", "ixorenum", "iand",
                               "or", "orenum", "enumor", "xor", "xorenum", "andenum", "andmask", "not", "test", "test", "test"])
            i, j, l = (k.rng.randrange(1, 4) for _ in range(3))
            q = sorted(k.rng.sample(range(32), k.rng.choice([0, 1, 1, 2, 3, 5, 30])))
            if op in ("fromenum", "assignenum", "iorenum", "ixorenum", "iand", "test"):
                sc.append([op, i, q])
            elif op in ("copy", "assign", "ior", "ixor", "not"):
                sc.append([op, i, j])
            elif op in ("or", "xor"):
                sc.append([op, i, j, l])
            elif op == "clear":
                sc.append([op, i])
            else:
                sc.append([op, i, j, q])
        scripts.append(sc)
    k.validate("FlagsS", exe, scripts, "random histories over all 32 bits", chunks=6)
