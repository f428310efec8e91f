from vlib import *
SRC = ["ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/timestamp_pos.cpp", "ecl_exceptions/src/lib/*.cpp"]
F = ["-DVERIF_VIRTUAL_TIME", "-DECL_HAS_RT_TIMERS"]


def run(k):
    exe, rel = k.builds([("timestamp", SRC, dict(flags=F)), ("timestamp", SRC, dict(flags=F + ["-DNDEBUG"], out="ts_rel", opt="-O2"))])
    V = r"{<<0, 0>>, <<0, 600000000>>, <<0, -600000000>>, <<1, 0>>, <<-1, 0>>, <<2, 999999999>>, <<-2, -999999999>>, <<1, 1>>, <<-1, -500000000>>}"
    body = "MInv == Inv(s)\nV == %s\nLim == TLCGet(\"level\") <= %d" % (V, 4 if k.thorough else 3)
    e = k.mc("TimeStampS", body, cmds=r"""{<<"new", a, (v[1] + a) % 3, v[1], v[2]>> : a \in {0, 1}, v \in V}
  \cup {<<op, a, b>> : op \in {"cmp", "copy", "inc", "dec"}, a \in {0, 1}, b \in {0, 1}} \cup {<<op, a, b, 0>> : op \in {"add", "sub"}, a \in {0, 1}, b \in {0, 1}} \cup {<<op, a>> : op \in {"get", "double", "show"}, a \in {0}}""", invariants=["MInv"], constraint="Lim", tag="a")
    k.replay(exe, e, "arithmetic and comparison, every transition", maxlen=400, limit=None if k.thorough else 500)
    e2 = k.mc("TimeStampS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= 2", cmds=r"""
  {<<"new", a, w, x, y>> : a \in {0, 1}, w \in 0..2, x \in {-2, 0, 3}, y \in {-999999999, -10, -1, 0, 1, 999999999} \cup UNION {{10^n, 10^n - 1, 0 - 10^n} : n \in 1..8}} \cup {<<"dbl", a, w, n>> : a \in {0, 1}, w \in 0..2, n \in {-1537, -512, -511, -1, 0, 1, 2, 511, 512, 513, 5121}}
  \cup {<<"clock", 5, 6, 7, 8>>, <<"clock", 0, 999999999, 1, 0>>} \cup {<<"now", a, w>> : a \in {0, 1}, w \in 0..2} \cup {<<"bad", a, w, x>> : a \in {0, 1}, w \in 0..2, x \in {"EINVAL", "EFAULT", "EIO", "ENOSYS"}} \cup {<<op, a>> : op \in {"get", "double", "show"}, a \in {0, 1}}""", invariants=["MInv"], constraint="Lim", tag="b")
    k.replay(exe, e2, "construction and printing, every transition", maxlen=400)
    scripts = []
    def val():
        n = k.rng.choice([0, 1, 999999999, 500000000, k.rng.randrange(10 ** 9), k.rng.randrange(10 ** k.rng.randrange(1, 9))])
        s = k.rng.choice([0, 0, 1, k.rng.randrange(100), k.rng.randrange(100000)])
        g = k.rng.choice([1, -1])
        return [g * s, g * n]
    for _ in range(600 if k.thorough else 120):
        sc = []
        for j in range(70):
            a, b, d = (k.rng.randrange(2) for _ in range(3))
            if j % 10 == 0: sc += [["new", z, k.rng.randrange(3)] + val() for z in (0, 1)]
            sc.append(k.rng.choice([["new", a, k.rng.randrange(3)] + val(), ["new", a, k.rng.randrange(3), k.rng.randrange(-3, 4), k.rng.randrange(-999999999, 10 ** 9)], ["dbl", a, k.rng.randrange(3), k.rng.randrange(-10 ** 6, 10 ** 6)], ["any", a] + val(),
                                    ["now", a, k.rng.randrange(3)], ["bad", a, k.rng.randrange(3), k.rng.choice(["EINVAL", "EFAULT", "EIO"])], ["clock"] + [abs(z) for z in val() + val()], ["copy", a, b], ["get", a], ["double", a], ["cmp", a, b], ["cmp", a, b], ["add", a, b, d], ["sub", a, b, d], ["inc", a, b], ["dec", a, b], ["show", a]]))
        # keep the seconds within what a double holds to the nanosecond
        out, mag = [], 0
        for c in sc:
            if c[0] in ("add", "sub", "inc", "dec"):
                mag += 1
                if mag > 5: continue
            if c[0] == "new" and mag > 5 and c[1] == 1: mag = 0
            out.append(c)
        scripts.append(out)
    k.validate("TimeStampS", exe, scripts, "random histories", invariants=["MInv"], extra_defs="MInv == Inv(s)")
    # in release builds nothing is checked: only stamps of one sign
    rs = [[c for c in sc if c[0] != "bad" and not (c[0] == "new" and c[3] * c[4] < 0)] for sc in scripts[:50]]
    k.validate("TimeStampS", rel, rs, "random histories, release build", invariants=["MInv"], extra_defs="MInv == Inv(s)", chunks=2)
    k.assumptions.append("the clocks are the driver's own, so that 'now' is known exactly")
