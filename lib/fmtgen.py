from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]
SIZE = [2, 4, 8, 1, 1, 2, 4, 8, 1]


def drivers(k):
    return k.builds([("fmt", SRC, dict(san="undefined")), ("fmt", SRC, dict(flags=["-DNDEBUG"], out="fmt_rel"))])


def script(k, kind, n):
    """a random history of three formatters (never one the specification does not allow)"""
    r = k.rng
    ks, tmp = [-1] * 3, [False] * 3
    out = []

    def value(t):
        if t < 9: return [r.choice([0, 15, 8, 7, r.randrange(16)]) for _ in range(2 * SIZE[t])]
        if t < 11: return [r.choice([r.randrange(-80, 80), r.randrange(-10 ** 6, 10 ** 6)]), 0] if r.random() < .8 else [r.choice([1, -1, 3, 5]), r.randrange(1, 90)]
        return "".join(r.choice("abc d%") for _ in range(r.randrange(9)))
    w = lambda: r.choice([-1, -1, 0, 1, 3, 6, 8, 10, 12, 20, 40, 90]) if r.random() < .97 else r.choice([150, 300, 600])
    p = lambda: r.choice([0, 1, 2, 3, 4, 6, 9, 10, 11, 19, 20, 21])
    for _ in range(n):
        i = r.randrange(3); t = ks[i]
        if t < 0 or r.random() < .06:
            have = [j for j in range(3) if ks[j] >= 0]
            if have and r.random() < .6:
                j = r.choice(have)
                out.append(["copy", i, j]); ks[i], tmp[i] = ks[j], tmp[j]
            else:
                ks[i] = kind(); tmp[i] = False; out.append(["new", i, ks[i], w(), r.randrange(4), r.randrange(3) if ks[i] < 9 else 2, p()])
            continue
        same = [j for j in range(3) if ks[j] == t and j != i]
        ops = ["tmp", "tmpall", "out", "out", "out", "out"]
        if not (t == 11 and tmp[i]): ops += ["width", "align", "set", "val", "val", "val"]
        if t < 9: ops += ["base"]
        if t in (9, 10): ops += ["prec", "get", "set2"]
        if same: ops += ["assign"]
        other = [j for j in range(3) if ks[j] >= 0 and j != i]
        if other: ops += ["both"]
        if r.random() < .03: ops = ["end"]
        o = r.choice(ops)
        a = r.randrange(4); b = r.randrange(3) if t < 9 else 2
        if o == "tmp": out.append([o, i, value(t), w(), b, p()]); tmp[i] = True
        elif o == "tmpall": out.append([o, i, value(t), w(), a, b, p()]); tmp[i] = True
        elif o == "out": out.append([o, i]); tmp[i] = False
        elif o == "both":
            j = r.choice(same or other); out.append([o, i, j]); tmp[i] = tmp[j] = False
        elif o == "width": out.append([o, i, w()])
        elif o == "align": out.append([o, i, a])
        elif o == "base": out.append([o, i, b])
        elif o == "prec": out.append([o, i, p()])
        elif o == "get": out.append([o, i])
        elif o == "set": out.append([o, i, w(), a, b, p()])
        elif o == "set2": out.append([o, i, p(), w()])
        elif o == "val": out.append([o, i, value(t)])
        elif o == "assign":
            j = r.choice(same); out.append([o, i, j]); tmp[i] = tmp[j]
        elif o == "end": out.append([o, i]); ks[i] = -1
    return out
