from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_devices/src/lib/socket_client_pos.cpp", "ecl_devices/src/lib/socket_server_pos.cpp", "ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp"]
WRAP = ["-Wl,--wrap=socket,--wrap=bind,--wrap=connect,--wrap=ioctl,--wrap=recv,--wrap=__recv_chk,--wrap=send,--wrap=accept,--wrap=gethostbyname"]
ERRS = "EAGAIN EINTR EBADF ENOTSOCK ECONNREFUSED ENOTCONN EFAULT EINVAL ENOMEM EACCES EPERM ECONNRESET EPIPE EISCONN EMSGSIZE ENOBUFS EOPNOTSUPP ENOTTY EADDRINUSE EAFNOSUPPORT EALREADY EINPROGRESS ETIMEDOUT ENETUNREACH EHOSTUNREACH EROFS EADDRNOTAVAIL ENOENT ELOOP ENAMETOOLONG ENOTDIR EIO ECONNABORTED EMFILE ENFILE EPROTO EPROTONOSUPPORT".split()


def run(k):
    dbg, rel = k.builds([("socket", SRC, dict(flags=WRAP, san="address,undefined")), ("socket", SRC, dict(flags=WRAP + ["-DNDEBUG"], san="", opt="-O2", out="socket_rel"))])
    cmds = r"""{c \in {<<"sopen", 0>>, <<"sopen", 1>>, <<"snew", 2>>, <<"snew", 1>>, <<"connect", 0>>, <<"connect", 1>>, <<"refuse">>, <<"nohost", 0>>, <<"nohost", 1>>, <<"nohost", 2>>, <<"nohost", 3>>, <<"nohost", 4>>, <<"cnew">>, <<"listen">>, <<"canary">>, <<"fds">>} \cup UNION {{<<"isopen", i>>, <<"close", i>>, <<"read", i, 0>>, <<"read", i, 1>>, <<"read", i, 2>>, <<"peek", i, 1>>, <<"rem", i>>, <<"w", i, <<"a">>>>, <<"wgone", i>>} : i \in 0..1}
      : Cardinality(Step(s, c)) = 1 /\ (c[1] = "canary" => s.can = 0) /\ (c[1] = "w" => Len(s.e[1 - c[2]].got) < 2)}"""
    e = k.mc("SocketS", "", cmds=cmds, constraint="TLCGet(\"level\") <= %d" % (20 if k.thorough else 7))
    k.replay(dbg, e, "a server and a client", maxlen=400)
    e = k.mc("SocketS", "", cmds=r"""{<<"err", d, x>> : d \in {"recv", "send", "ioctl", "connect", "bind", "socket", "accept"}, x \in {%s}}""" % ", ".join('"%s"' % x for x in ERRS), tag="errors")
    k.replay(dbg, e, "every system error", maxlen=400)
    # calls that fail or transfer less
    e = k.mc("SocketS", "", cmds=r"""{c \in {<<"sopen", 0>>, <<"connect", 0>>, <<"refuse">>, <<"nohost", 0>>, <<"nohost", 2>>, <<"listen">>, <<"fds">>, <<"part", 1>>} \cup UNION {{<<"isopen", i>>, <<"close", i>>, <<"read", i, 3>>, <<"peek", i, 1>>, <<"rem", i>>, <<"w", i, <<"a", "b">>>>} : i \in 0..1}
      \cup {<<"fail", x, y>> : x \in {"recv", "send", "ioctl"}, y \in {"ECONNRESET", "EPIPE", "EINVAL"}} \cup {<<"fail", x, "EACCES">> : x \in {"socket", "bind", "connect"}} \cup {<<"fail", "accept", "EINTR">>}
      : Cardinality(Step(s, c)) = 1 /\ (c[1] = "w" => Len(s.e[1 - c[2]].got) < 2) /\ (c[1] \in {"fail", "part"} => s.f = <<>>)}""", constraint="TLCGet(\"level\") <= %d" % (20 if k.thorough else 7), tag="fail")
    k.replay(dbg, e, "failing calls", maxlen=400)
    r = k.rng

    def script(n):
        out = []; srv = cli = 0; link = [0, 0]; got = [0, 0]; gone = [0, 0]
        def drop(i):
            if link[i]:
                link[i] = 0; o = 1 - i
                gone[o] = 0 if not link[o] else 2 if got[i] or gone[o] == 2 else 1
                got[i] = gone[i] = 0
        for _ in range(n):
            i = r.randrange(2); here = link[i] and (srv if i else cli)
            if here and r.random() < .08:
                x = r.choice(["recv", "recv", "ioctl", "send"]); e = r.choice([z for z in ERRS if z not in ("EPIPE", "ECONNRESET")])
                out += [["fail", x, e], {"recv": r.choice([["read", i, 2], ["peek", i, 2]]), "ioctl": ["rem", i], "send": ["w", i, ["q"]]}[x]]; continue
            o = r.choice(["sopen", "snew", "connect", "connect", "refuse", "nohost", "cnew", "canary", "fds", "fds", "isopen", "close", "read", "read", "read", "read", "peek", "peek", "rem", "rem", "w", "w", "w", "w", "w", "w", "wgone"])
            if o in ("sopen", "snew"):
                p = r.choice([0, 0, 0, 1] + ([2] if o == "snew" else [])); drop(1); srv = int(p == 0); out.append([o, p])
            elif o == "connect":
                if not srv:
                    out.append(["listen"]) if r.random() < .3 else out.append(["sopen", 0]); srv = int(out[-1][0] == "sopen"); continue
                drop(1); drop(0); cli = 1; link[:] = [1, 1]; got[:] = [0, 0]; gone[:] = [0, 0]; out.append([o, r.randrange(2)])
            elif o in ("refuse", "nohost", "cnew"): drop(0); cli = 0; out.append([o, r.randrange(5)] if o == "nohost" else [o])
            elif o in ("canary", "fds"): out.append([o])
            elif o == "isopen": out.append([o, i])
            elif o == "close":
                if r.random() < .5: continue
                drop(i); out.append([o, i])
                if i: srv = 0
                else: cli = 0
            elif o == "read":
                m = r.choice([0, 1, 1, 2, 3, 100])
                if here and (m == 0 and not got[i] and gone[i] != 1 or m > 0 and not got[i] and not gone[i]): continue
                out.append([o, i, m])
                if here and m:
                    if got[i]: got[i] -= min(m, got[i])
                    else:
                        drop(i)
                        if i: srv = 0
                        else: cli = 0
            elif o == "peek":
                if here and not got[i] and gone[i] != 1: continue
                out.append([o, i, r.choice([1, 2, 5])])
            elif o == "rem":
                if here and gone[i] == 2: continue
                out.append([o, i])
            elif o == "w":
                if here and gone[i]: continue
                q = [r.choice("abcxyz") for _ in range(r.choice([1, 1, 2, 3, 20, 200]))]; out.append([o, i, q])
                if here: got[1 - i] += len(q)
            else:
                if here and gone[i] == 1 and not got[i]:
                    out.append([o, i]); drop(i)
                    if i: srv = 0
                    else: cli = 0
        return out
    n = 300 if k.thorough else 60
    k.validate("SocketS", dbg, [[["mode", 1]] + script(150) for _ in range(n)], "random histories", chunks=4)
    k.validate("SocketS", rel, [[["mode", 0]] + script(150) for _ in range(n)], "random histories, release build", chunks=4)
    k.assumptions.append("reads that would wait are not made; delivery on the loopback is awaited before reading")
