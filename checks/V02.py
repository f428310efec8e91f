from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp"]
LIM = [(-128, 127), (-2 ** 15, 2 ** 15 - 1), (-2 ** 31, 2 ** 31 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 255), (0, 2 ** 16 - 1), (0, 2 ** 32 - 1), (0, 2 ** 64 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 64 - 1)]


def size(w, n):
    return 250 if w == 4 else n


def run(k):
    dbg, rel = k.builds([("charstr", SRC, dict(san="address,undefined")), ("charstr", SRC, dict(flags=["-DNDEBUG"], out="charstr_rel"))])
    r = k.rng
    nums = []
    for t, (lo, hi) in enumerate(LIM):
        vals = {lo, lo + 1, hi, hi - 1, 0, 1, 9, 10, 99, 100} | ({-1, -9, -10, -99, -100} if lo < 0 else set())
        vals = [v for v in vals if lo <= v <= hi]
        for v in vals:
            s = str(v)
            for w in range(5):
                for n in sorted({len(s), len(s) + 1, len(s) + 2, 30}):
                    if n >= 1: nums.append(["num", t, w, size(w, n), s])
    k.validate("CharStrS", dbg, [nums[i::6] for i in range(6)], "limits of every integral type", chunks=3)
    flt = [["flt", t, w, size(w, n), v, p] for t in (0, 1) for w in range(5) for n in (30, 8, 3) for v in (0, 1, 4, 12, 20, 28, -1, -4, -12, 8, -8, 7999, 80001) for p in ([-1, 0, 1, 2, 3, 5, 9, 10, 15, 19, 20, 25] if n == 30 and w in (0, 4) else [-1, 0, 2, 12])]
    k.validate("CharStrS", dbg, [flt[i::6] for i in range(6)], "floats at every precision", chunks=3)
    bl = [["bool", w, n if w not in (0, 4) else 6, v] for w in (0, 2, 3, 4) for n in range(1, 9) for v in (0, 1)]
    dig = [["mode", 1]] + [["ci", 0, n] for n in (-5, -1, 0, 5, 9, 10, 300)] + [["cu", 0, n] for n in (0, 9, 10, 4000000)] + [["ic", 0, x] for x in "059/:aZ -"] + [["str", w, str(v)] for w in (0, 1) for v in (0, 1, -1, 10, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1, 100)]
    k.validate("CharStrS", dbg, [bl, dig], "bools and digits")
    e = k.mc("CharStrS", "A == {\"1\", \"0\", \"-\", \" \", \"x\"}", cmds=r"""{<<"is", 0, q>> : q \in UNION {[1..n -> A] : n \in 0..%d}} \cup {<<"is", 1, q>> : q \in UNION {[1..n -> A] : n \in 0..2}}""" % (5 if k.thorough else 4))
    k.replay(dbg, e, "every short text", maxlen=3000)

    # every printable character in front of, behind and within a number, and on its own
    odd = [["is", 0, list(x)] for c in map(chr, range(32, 127)) for x in (c, "12" + c, "12" + c + "9", c + "12", "-" + c + "1", "12" + c + c, "1" + c + "00", "12 " + c)]
    k.validate("CharStrS", dbg, [[["mode", 1]] + odd], "every character in a number's text")

    def rnd(n):
        out = []
        for _ in range(n):
            sc = []
            for j in range(60):
                t = r.randrange(10); lo, hi = LIM[t]
                v = r.choice([lo, hi, r.randrange(lo, hi + 1), max(lo, min(hi, r.randrange(-1000, 1000)))])
                w = r.randrange(5)
                s = r.choice(["%d" % r.randrange(-2 ** 31, 2 ** 31), "%d" % r.randrange(-2 ** 33, 2 ** 33), " +%d" % r.randrange(99), "00%d" % r.randrange(99), "%dx" % r.randrange(99), "0x1f", "1 ", "--1", "", "2147483648", "-2147483648", "-2147483649", "00002147483647"])
                sc.append(r.choice([["num", t, w, size(w, r.choice([len(str(v)), len(str(v)) + 1, 30, 60])), str(v)], ["flt", r.randrange(2), w, size(w, r.choice([30, 12, 60])), r.randrange(-10 ** 6, 10 ** 6), r.randrange(-1, 22)],
                                    ["bool", w if w not in (1,) else 3, size(w, r.randrange(3, 9)) if w not in (0,) else 6, r.randrange(2)], ["is", 0, list(s)], ["is", 0, list(s)], ["str", r.randrange(2), str(r.choice([-2 ** 31, 2 ** 31 - 1, r.randrange(-2 ** 31, 2 ** 31)]))],
                                    ["ci", 0, r.randrange(-2, 12)], ["cu", 0, r.randrange(12)], ["ic", 0, r.choice("0123456789ab")]]))
            out.append(sc)
        return out
    k.validate("CharStrS", dbg, [[["mode", 1]] + s for s in rnd(200 if k.thorough else 40)], "random conversions")
    k.validate("CharStrS", rel, [[["mode", 0]] + [c for c in s if not (c[0] == "is" and c[1])] for s in rnd(100 if k.thorough else 30)], "random conversions, release build", chunks=2)
