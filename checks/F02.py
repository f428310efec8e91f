from fmtgen import *


def run(k):
    dbg, rel = drivers(k)
    for t, vs, tag in ((10, "{<<12, 0>>, <<-7999, 0>>}", "double"), (11, '{"ab", "", "abcdef"}', "string")):
        tv = "<<4, 0>>" if t == 10 else '"xyz"'
        e = k.mc("FormatS", "", cmds=r"""
  {<<"new", 0, %d, -1, 0, 2, 4>>} \cup {<<"new", 0, %d, 9, a, 2, 2>> : a \in 0..3}
  \cup {<<"width", 0, w>> : w \in {-1, 8, 9}} \cup {<<"align", 0, a>> : a \in 0..3} \cup {<<"prec", 0, p>> : p \in {0, 2}} \cup {<<"get", 0>>, <<"set2", 0, 1, 10>>} \cup {<<"set", 0, 10, a, 2, 1>> : a \in {0, 1}}
  \cup {<<"val", 0, v>> : v \in %s} \cup {<<"tmp", 0, %s, w, 2, 3>> : w \in {7, -1}} \cup {<<"tmpall", 0, %s, 11, a, 2, 0>> : a \in {0, 3}}
  \cup {<<"out", 0>>}""" % (t, t, vs, tv, tv), tag=tag, constraint='TLCGet("level") <= %d' % (5 if k.thorough else 4))
        k.replay(dbg, e, "settings, values and outputs, " + tag, maxlen=400)
    r = k.rng
    sc = [script(k, lambda: r.choice([9, 10, 11]), 70) for _ in range(200 if k.thorough else 50)]
    big = []
    for t, es in ((9, [30, 60, 100, 127]), (10, [1, 30, 60, 95, 100, 300, 1000, 1023])):
        for e in es:
            for m in (1, -1):
                for p in (0, 4, 9, 10, 15, 20, 25):
                    if e < 200 or p in (4, 20): big += [["new", 0, t, 45, 3, 2, p], ["val", 0, [m, e]], ["out", 0]]
    k.validate("FormatS", dbg, [[["mode", 1]] + s for s in [big[:60], big[60:120], big[120:]] + sc], "random histories and large numbers", chunks=4)
    k.validate("FormatS", rel, [[["mode", 0]] + s for s in sc[:len(sc) // 2]], "random histories, release build", chunks=2)
    k.assumptions.append("floats are eighths and powers of two, which printf gives exactly")
