import math
from vlib import *
U = "ecl_core_apps/src/utils/"
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_threads/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp", "ecl_command_line/src/lib/*.cpp"] + ["ecl_devices/src/lib/" + x for x in ("serial_pos.cpp", "socket_client_pos.cpp", "socket_server_pos.cpp", "detail/error_handler.cpp", "detail/exception_handler_pos.cpp", "detail/socket_exception_handler_pos.cpp", "detail/character_buffer.cpp")]
WRAP = ["-DECL_HAS_RT_TIMERS", "-DECL_HAS_TIMESTAMP", "-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep", "-Wl,--wrap=read", "-Wl,--wrap=sched_getscheduler", "-Wl,--wrap=sched_getparam", "-Wl,--wrap=getpriority", "-U_FORTIFY_SOURCE"]
NAMES = ["hex", "serial", "socket_client", "socket_server"]
CODE = {"_": "20", "|": "0a", "a": "61", "b": "62", "z": "7a", "A": "41", "Z": "5a", "0": "30", "9": "39", "~": "7e", "!": "21", "{": "7b"}


def session(r, kind, n):
    x, t = kind == 0 or r.random() < .5, r.random() < .5
    o = [[r.choice(["-p", "--port"]), "PORT"]]
    if t: o.append([r.choice(["-t", "--timestamps" if kind <= 1 else "--timestamp"])])
    if x and kind: o.append([r.choice(["-x", "--hex"])])
    if kind <= 1 and r.random() < .8: o.append([r.choice(["-b", "--baud"]), r.choice(["9600", "38400", "115200"])])
    if kind == 2 and r.random() < .6: o.append([r.choice(["-n", "--hostname"]), r.choice(["127.0.0.1", "localhost"])])
    r.shuffle(o)
    out = [["start", kind, sum(o, [])]]; nl = True; typing = True
    word = lambda m: "".join(r.choice("abzAZ09~!{_") for _ in range(r.randrange(1, m)))
    for _ in range(n):
        if r.random() < .4 and typing:
            if kind == 0:
                w = [r.choice(sorted(CODE.values())) for _ in range(r.choice([1, 1, 2, 5, 12]))]; q = r.choice(["", "", "_"]) + "_".join("0x" + h for h in w) + "|"
                out.append(["type", q, len(w), 1 + 4 * t])
            else:
                q = word(r.choice([3, 10, 70])) + "|"
                if r.random() < .2: q = "|"
                out.append(["type", q, len(q), 4 * t if kind == 1 else len(q) + 6 * t])
        elif r.random() < .05: out.append(["eof"]); typing = False
        else:
            q = "".join(r.choice("abzAZ09~!{_|||") for _ in range(r.choice([1, 2, 3, 8, 20]))); m = 0
            for ch in q:
                m += (4 if kind <= 1 else 6) * (t and (kind <= 1 or x or nl)) + (4 + (2 if kind <= 1 else 1) if x else 1); nl = ch == "|"
            out.append(["arrive", q, m, r.randrange(1, 4) if kind <= 1 and r.random() < .15 else 0])
    if kind >= 2:
        if typing: out.append(["eof"])
        out += [["hangup"], ["finish"]]
    return out


def run(k):
    b = lambda n, **kw: ("utils", SRC, dict(flags=WRAP + ['-DUTIL="%s/%s%s.cpp"' % (REPO, kw.pop("d", U), n)] + kw.pop("flags", []), out=n + kw.get("opt", ""), **kw))
    exes = k.builds([b(n, san="address", flags=["-DNDEBUG"]) for n in NAMES] + [b(n, san="address") for n in ("yaw2quaternion", "quaternion2yaw")] + [b("process_statistics", flags=["-DNOARGS"]), b("detect_sizes", d="ecl_type_traits/src/utils/", flags=["-DNOARGS"])])
    r = k.rng
    for kind in range(4):
        k.validate("UtilS", exes[kind], [session(r, kind, 25) for _ in range(40 if k.thorough else 12)], "the utility " + NAMES[kind], chunks=4)
    # every rotation by a multiple of five degrees, each way
    deg = lambda d: repr(d * math.pi / 180)
    k.validate("UtilS", exes[4], [[["run", [deg(d)], d] for d in range(0, 361, 5 if k.thorough else 15)]], "yaw to quaternion", chunks=1)
    q = lambda x, y, z, w: [repr(v) for v in (x, y, z, w)]
    yaw = [["run", q(0.0, 0.0, math.sin(d * math.pi / 360), math.cos(d * math.pi / 360)), 1, d] for d in range(0, 360, 5 if k.thorough else 15)]
    other = [["run", q(x, y, z, w), 0, 0] for x, y, z, w in [(0.5, 0.0, 0.0, 0.866025), (0.0, 0.5, 0.0, 0.866025), (0.5, 0.5, 0.5, 0.5), (0.0, 1.0, 0.0, 0.0), (1.0, 0.0, 0.0, 0.0), (0.1, 0.0, 0.7, 0.7071)]]
    k.validate("UtilS", exes[5], [yaw, other], "quaternion to yaw", chunks=1)
    k.validate("UtilS", exes[7], [[["tell"]]], "the sizes of types", chunks=1)
    lv = [["tell", "OTHER", n] for n in range(-20, 20)] + [["tell", "RR", n] for n in range(1, 100)] + [["tell", "FIFO", n] for n in (1, 50, 99)]
    k.validate("UtilS", exes[6], [r.sample(lv, len(lv) if k.thorough else 40)], "the statistics of a process", chunks=1)
