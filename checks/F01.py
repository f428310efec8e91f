from fmtgen import *


def run(k):
    dbg, rel = drivers(k)
    V = ["<<0, 0, 10, 5>>", "<<15, 15, 15, 15>>", "<<8, 0, 0, 0>>"]
    cmds = r"""
  {<<"new", 0, t, -1, 0, 2, 4>> : t \in {0, 5}} \cup {<<"new", 0, 0, w, a, b, 4>> : w \in {8}, a \in 0..3, b \in 0..2}
  \cup {<<"width", 0, w>> : w \in {-1, 7, 8}} \cup {<<"align", 0, a>> : a \in 0..3} \cup {<<"base", 0, b>> : b \in 0..2} \cup {<<"set", 0, w, a, b, 4>> : w \in {9}, a \in {0, 1}, b \in {1}}
  \cup {<<"val", 0, v>> : v \in V} \cup {<<"tmp", 0, v, w, b, 4>> : v \in {<<0, 0, 1, 0>>}, w \in {6, -1}, b \in {1, 2}} \cup {<<"tmpall", 0, v, w, a, b, 4>> : v \in {<<0, 0, 1, 0>>}, w \in {9}, a \in {0, 3}, b \in {2}}
  \cup {<<"out", 0>>}"""
    e = k.mc("FormatS", "V == {%s}" % ", ".join(V if k.thorough else V[:2]), cmds=cmds, constraint='TLCGet("level") <= %d' % (6 if k.thorough else 4))
    k.replay(dbg, e, "settings, values and outputs of one formatter", maxlen=400)
    e = k.mc("FormatS", "", cmds=r"""{<<"new", 0, 0, 7, 2, 1, 4>>, <<"new", 1, 0, 5, 1, 2, 4>>} \cup {<<"copy", i, j>> : i, j \in {0, 1}} \cup {<<"assign", 0, 1>>, <<"assign", 1, 0>>, <<"assign", 0, 0>>, <<"end", 0>>} \cup {<<"width", i, 8>> : i \in {0, 1}}
      \cup {<<"val", i, <<0, 0, 0, i + 1>>>> : i \in {0, 1}} \cup {<<"tmpall", i, <<0, 0, 2, i>>, 9, 3, 1, 4>> : i \in {0, 1}} \cup {<<"out", i>> : i \in {0, 1}}""", tag="copies", constraint='TLCGet("level") <= %d' % (5 if k.thorough else 4))
    k.replay(dbg, e, "copies of formatters", maxlen=400)
    r = k.rng
    sc = [script(k, lambda: r.randrange(9), 70) for _ in range(200 if k.thorough else 50)]
    # every type at its limits in every base
    lim = []
    for t in range(9):
        n = 2 * SIZE[t]
        for b in range(3):
            for v in ([0] * n, [15] * n, [8] + [0] * (n - 1), [7] + [15] * (n - 1), [0] * (n - 1) + [1], [(i * 5 + 3) % 16 for i in range(n)]):
                lim += [["new", 0, t, 30, 3, b, 4], ["val", 0, v], ["out", 0], ["tmp", 0, v, 12, b, 4], ["out", 0], ["tmpall", 0, v, 25, 1, b, 4], ["out", 0], ["val", 0, v], ["out", 0]]
    k.validate("FormatS", dbg, [[["mode", 1]] + s for s in [lim[i::1] for i in range(1)] + sc], "random histories and limits of every type", chunks=4)
    k.validate("FormatS", rel, [[["mode", 0]] + s for s in sc[:len(sc) // 2]], "random histories, release build", chunks=2)
