from vlib import *


def good(u, v):
    return 0 < (u - 32) ** 2 + (v - 32) ** 2 < 1024


def run(k):
    d, f = k.builds([("rand", [], dict(out="rand_d")), ("rand", [], dict(out="rand_f", flags=["-DVT=float"]))])
    # every point of the grid, alone and after rejected ones
    # (the four points of the grid that lie exactly on the circle are not used)
    onc = {(0, 32), (64, 32), (32, 0), (32, 64)}
    pts = [(u, v) for u in range(0, 65) for v in range(0, 65) if (u, v) not in onc]
    goods = [p for p in pts if good(*p)]
    r = k.rng
    def make(centre):
      scripts = []
      for i in range(0, len(goods), 40):
        sc = []
        for p in goods[i:i + 40]:
            pre = [q for _ in range(r.choice([0, 0, 1, 3])) for q in r.choice([(0, 0), centre, (64, 64), (1, 63), (2, 5)])]
            sc.append(["feed", pre + list(p)])
            sc.append(["pair", r.choice([1, 2, 5]), r.choice([0, 0, 3, -4]), list(p), r.choice([1, 3, 7]), r.choice([0, 0, 2, -6])])
            sc.append(["feed", [r.randrange(65), r.randrange(65)]])
            sc += [["uniform"], ["range", r.choice([1, 2, 5, 100])]] if r.random() < .5 else [["range", 3], ["uniform"]]
            if r.random() < .2: sc.append(["seed", r.randrange(10 ** 9)])
        scripts.append(sc)
      return scripts
    k.validate("RandS", d, make((60, 60)), "every point of the grid, double")
    # a float source value of one half is exact: the centre of the circle is met and must be passed over
    k.validate("RandS", f, make((32, 32)), "every point of the grid, float")
    e = k.mc("RandS", "Lim == Len(s.src) <= 3", cmds=r"""{<<"feed", q>> : q \in {<<0>>, <<64>>, <<32, 32>>, <<16, 40>>}} \cup (IF s.src = <<>> THEN {} ELSE {<<"uniform">>, <<"range", 1>>, <<"range", 7>>}) \cup {<<"seed", 5>>}""", constraint="Lim")
    k.replay(d, e, "every uniform history")
    k.replay(f, e, "every uniform history, float")
