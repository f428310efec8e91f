from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_devices/src/lib/string.cpp", "ecl_streams/src/lib/manipulators.cpp"]
MAX = [32767, 2147483647, 2 ** 63 - 1, 2 ** 63 - 1, 255, 65535, 2 ** 32 - 1, 2 ** 64 - 1, 2 ** 64 - 1]
MIN = [-32768, -2147483648, -2 ** 63, -2 ** 63, 0, 0, 0, 0, 0]


def token(r):
    t = r.randrange(9)
    return r.choice([
        lambda: str(r.choice([MAX[t], MAX[t] + 1, MAX[t] - 1, MIN[t], MIN[t] - 1, MIN[t] + 1, MAX[t] // 10, MAX[t] // 10 * 10, r.randrange(MIN[t], MAX[t] + 1)])),
        lambda: str(r.randrange(-50, 300)), lambda: "0" * r.randrange(4) + str(r.randrange(100)), lambda: r.choice(["0x", "x", "0x0", "0X"]) + "%x" % r.choice([MAX[t], MAX[t] + 1, r.randrange(MAX[t]), r.randrange(300)]),
        lambda: "0x%X" % r.randrange(2 ** r.randrange(1, 65)), lambda: "%s%d.%s" % (r.choice(["", "-", "+"]), r.randrange(10 ** r.randrange(1, 9)), "".join(r.choice("0123456789") for _ in range(r.randrange(8)))),
        lambda: ".%d" % r.randrange(1000), lambda: r.choice(["true", "false", "True", "FALSE", "TRUE", "False", "tRue", "", "-", "+", "0", "-0", "0x", ".", "-.", "abc", "0;", "+-1", "1e5", "7,", "--1", "x", "0.0", "-0.5", "99999999999999999999", "0.1", "123456.5", "16777217", "0.000015"]),
        lambda: "".join(r.choice("0123456789") for _ in range(r.choice([24, 25, 26, 27, 30, 36]))) + r.choice(["", ".5", "." + "3" * 30]), lambda: r.choice(["0x", ""]) + "0" * 30 + "12", lambda: "1" * 45,
        lambda: "".join(r.choice("0123456789.-+xaF \n\t") for _ in range(r.randrange(8)))])()


def script(r, n, mem):
    out = []
    for _ in range(n):
        o = r.random()
        if o < .3:
            tx = list(r.choice(["", "", " ", "\n"]) + token(r) + r.choice(["", " ", "\n", " \n ", ",", ";"]))
            if mem and r.random() < .03: out.append(["text", 0, ["%", "s"]])
            out.append(["text", r.randrange(3), tx])
        elif o < .8: out.append(["read", r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 11, 12, 12, 13, 14])])
        elif o < .86: out.append(["left"])
        elif o < .88: out.append(["raw", r.randrange(2)])
        elif o < .9: out.append(["clear"])
        elif o < .92: out.append(["fail"])
        elif mem and r.random() < .25: out += [["shut", 1]] + [["read", r.randrange(1, 15)] if r.random() < .7 else r.choice([["left"], ["fail"], ["text", r.randrange(3), ["a"]], ["num", r.choice([1, 2, 3, 4, 6, 7, 8, 9]), "7"]]) for _ in range(4)] + [["shut", 0], ["left"]]
        elif mem: out.append(r.choice([["break", r.randrange(1, 6)], ["heal"], ["heal"], ["nest", r.choice([1, 2, 8, 11, 10]), list(token(r))]]))
        else: out.append(["dread", r.randrange(1, 5)])
    return [c for c in out if len(str(c)) < 400]


def drivers(k):
    return k.builds([("stream", SRC, dict(san="address,undefined", out="stream_mem")), ("stream", SRC, dict(flags=["-DSTRINGSTREAM"], san="address,undefined", out="stream_str")), ("stream", SRC, dict(flags=["-DSTRINGSTREAM", "-DNDEBUG"], out="stream_rel"))])
