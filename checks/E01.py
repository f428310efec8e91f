from vlib import *
EXC = ["ecl_exceptions/src/lib/*.cpp"]


def run(k):
    d, r = k.builds([("except", EXC, dict(out="xd")), ("except", EXC, dict(out="xr", opt="-O2", flags=["-DNDEBUG"]))])
    for exe, build in ((d, "debug"), (r, "release")):
        edges = k.mc("Except", "Small == Len(s.e.loc) < 40 /\\ Len(s.d.loc) < 40 /\\ (s.e.flag = 0 \\/ s.d.flag = 0)", cmds=r"""
 {<<"assert", "%s", b>> : b \in 0..1} \cup {<<"debug", "%s">>, <<"throw">>, <<"copy">>}
 \cup (IF s.e.flag = 0 THEN {<<"raise", "f.cpp:1", f, m>> : f \in 1..23, m \in {"", "why"}} \cup {<<"raise", "g", 5, "">>} ELSE {<<"again", "h.cpp:22">>, <<"again", "k">>})
 \cup (IF s.e.flag # 0 THEN {} ELSE IF s.d.flag = 0 THEN {<<"draise", "f.cpp:1", f, m, "dd">> : f \in 1..5, m \in {"", "why"}} ELSE {<<"dagain", "h.cpp:22">>})
""" % (build, build), constraint="Small", tag=build)
        k.replay(exe, edges, "raising and rethrowing, %s build" % build)
        scripts = []
        for _ in range(100 if k.thorough else 30):
            sc = []
            w = lambda: "".join(k.rng.choice("abcXYZ.:/-0123") for _ in range(k.rng.randrange(1, 20)))
            for _ in range(20):
                u = k.rng.random()
                m = k.rng.choice(["", w()])
                if not sc or u < .2:
                    sc.append(["raise", w(), k.rng.randrange(1, 24), m])
                    sc.append(["draise", w(), k.rng.randrange(1, 24), m, w()])
                else:
                    sc.append([["again", w()], ["dagain", w()], ["copy"], ["assert", build, k.rng.randrange(2)], ["throw"], ["debug", build]][k.rng.randrange(6)])
            scripts.append(sc)
        k.validate("Except", exe, scripts, "random histories, %s build" % build, chunks=2)
