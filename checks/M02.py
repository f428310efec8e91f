from vlib import *
SRC = ["ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/timestamp_pos.cpp", "ecl_time/src/lib/snooze_pos.cpp", "ecl_time/src/lib/sleep_pos.cpp", "ecl_time/src/lib/stopwatch.cpp", "ecl_time/src/lib/cpuwatch_rt.cpp", "ecl_time/src/lib/time_data.cpp", "ecl_exceptions/src/lib/*.cpp"]
F = ["-DVERIF_VIRTUAL_TIME", "-DECL_HAS_TIMESTAMP", "-include", "unistd.h"]


def run(k):
    exe = k.build("clock", SRC, flags=F)
    lv = 6 if k.thorough else 5
    e = k.mc("ClockS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= %d" % lv, cmds=r"""
  {<<"period", w, 0, n, v>> : w \in 0..1, n \in {10000000, 300000000}, v \in {0, 1}} \cup {<<"period", 2, x, y, 0>> : x \in {1}, y \in {0, 500000000, 999999999}}
  \cup {<<"tick", 0, 0, n>> : n \in {1, 300000000, 990000000}} \cup {<<"tick", 0, 1, 0>>, <<"getp">>, <<"init">>, <<"snooze">>}""", invariants=["MInv"], constraint="Lim", tag="sn")
    k.replay(exe, e, "every snooze history", maxlen=300, limit=None if k.thorough else 1500)
    e = k.mc("ClockS", "MInv == Inv(s)\nLim == TLCGet(\"level\") <= %d" % (lv - 3), cmds=r"""
  {<<op, 0, n>> : op \in {"mk", "gon"}, n \in {0, 1, 7}} \cup {<<op, j, n>> : op \in {"mk", "gon"}, j \in 1..3, n \in {0, 1, 999, 1000, 1001, 999999, 1000000, 2500000, 1000000000, 2000000001}} \cup {<<"go", j>> : j \in 0..3} \cup {<<op, 1, n>> : op \in {"mkd", "god"}, n \in {0, 5, 999999999}}
  \cup {<<"fail", e>> : e \in {"Interrupted", "Memory", "InvalidInput", "Unknown"}}""", invariants=["MInv"], constraint="Lim", tag="sl")
    k.replay(exe, e, "every sleep history", maxlen=300, limit=None if k.thorough else 1500)
    scripts = []
    r = k.rng
    ns = lambda: r.choice([0, 1, 10000000, 500000000, 999999999, r.randrange(10 ** 9)])
    for _ in range(400 if k.thorough else 80):
        sc = []
        for j in range(60):
            kd = r.randrange(4)
            # (seconds stay far below 2^31 over a script)
            n = r.choice([0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, r.randrange(10 ** 6), r.randrange(2 * 10 ** 9)]) if kd else r.randrange(10 ** 6)
            sc.append(r.choice([["period", r.randrange(3), r.choice([0, 0, 1, r.randrange(100)]), ns() or 7, r.randrange(2)], ["snooze"], ["snooze"], ["snooze"], ["tick", 0, r.choice([0, 0, 1, 5]), ns()], ["tick", 0, 0, ns()], ["getp"], ["init"],
                                ["mk", kd, n], ["gon", kd, n], ["go", kd], ["go", kd], ["mkd", r.randrange(100), ns()], ["god", r.randrange(100), ns()], ["fail", r.choice(["Interrupted", "Memory", "InvalidInput", "Unknown"])]]))
        scripts.append(sc)
    # a period that divides a second: the wrap is met exactly
    for p in (1, 10, 100, 125, 200, 250, 500, 1000):
        scripts.append([["period", 1, p // 1000, p % 1000 * 1000000, 0]] + [["snooze"]] * 110)
        scripts.append([["tick", 0, 3, 1000000], ["period", 0, p // 1000, p % 1000 * 1000000, 1]] + [["snooze"], ["tick", 0, 0, 700000]] * 110)
    k.validate("ClockS", exe, scripts, "random sleeping and snoozing", invariants=["MInv"], extra_defs="MInv == Inv(s)")
    k.assumptions.append("the clock, nanosleep and sleep_until are the driver's own: what is asked of them is compared, and a request the kernel would refuse is refused")
