from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("open", "fdopen", "fwrite", "fputc", "fflush", "fclose"))]
ERRS = "ENOENT EINVAL EACCES EFBIG EOVERFLOW EINTR EISDIR ELOOP EMFILE ENFILE ENAMETOOLONG ENOMEM ENOSPC ENOTDIR EROFS ETXTBSY EPERM ENXIO".split()
NAMES = ["a", "a", "b", "c", "dir/e", "dir", "no/file", "plain/file", "loop", "long"]


def run(k):
    dbg, rel = k.builds([("file", SRC, dict(flags=WRAP, san="address,undefined")), ("file", SRC, dict(flags=WRAP + ["-DNDEBUG"], out="file_rel"))])
    names = '{"a", "dir", "no/file"}'
    cmds = r"""{c \in {<<"new", 0>>, <<"close", 0>>, <<"closebad", 0, "EIO">>, <<"endbad", 0>>, <<"isopen", 0>>, <<"name", 0>>, <<"w", 0, 0, "x", 1>>, <<"w", 0, 1, "y", 2>>, <<"w", 0, 1, "y", 0>>, <<"w", 0, 2, "z", 1>>, <<"w", 0, 2, "z", 0>>, <<"wbad", 0, 1, "q", 2>>, <<"wbad", 0, 0, "q", 1>>, <<"wbad", 0, 2, "q", 2>>, <<"flush", 0>>, <<"flushbad", 0>>, <<"look", "a">>, <<"fds">>}
      \cup {<<op, 0, n, m>> : op \in {"make", "open"}, n \in %s, m \in {0, 1}} \cup {<<"openbad", 0, "a", m, w, "EMFILE">> : m \in {0, 1}, w \in {"open", "fdopen"}} : Cardinality(Step(s, c)) = 1}""" % names
    small = "Len(s.f[0].pend) + (IF Has(s, \"a\") THEN Len(s.disk[\"a\"]) ELSE 0) <= %d /\\ TLCGet(\"level\") <= %d" % ((3, 7) if k.thorough else (2, 5))
    e = k.mc("FileS", "", cmds=cmds, constraint=small)
    k.replay(dbg, e, "one file and every failure", maxlen=400)
    e = k.mc("FileS", "", cmds=r"""{<<"err", d, x>> : d \in {"open", "close", "write", "read", "sync"}, x \in {%s}}""" % ", ".join('"%s"' % x for x in ERRS + ["EAGAIN", "EBADF", "EFAULT", "EIO", "EPIPE"]), tag="errors")
    k.replay(dbg, e, "every system error", maxlen=400)
    r = k.rng

    def script(n):
        out = []; at = ["", "", ""]; dirty = [0, 0, 0]
        for _ in range(n):
            i = r.randrange(3); o = r.choice(["open", "open", "w", "w", "w", "w", "w", "w", "flush", "flush", "look", "look", "close", "bad", "isopen", "new", "fds", "name"])
            if o == "open":
                m = r.choice([n for n in NAMES if all(at[j] != n for j in range(3) if j != i)]); out.append([r.choice(["open", "open", "make"]), i, m, r.randrange(2)]); dirty[i] = 0; at[i] = m if m in ("a", "b", "c", "dir/e") else ""
            elif o == "w":
                n = r.choice([0, 1, 1, 2, 3, 10, 4095, 4096, 4097, 10000]); w = r.choice([1, 1, 2]) if n != 1 else r.randrange(3)
                out.append([o, i, w, r.choice("xyz"), n]); dirty[i] = dirty[i] or (at[i] and n)
            elif o == "look":
                m = r.choice(["a", "b", "c", "dir/e"])
                for j in range(3):
                    if at[j] == m and dirty[j]: out.append([r.choice(["flush", "close"]), j]); dirty[j] = 0; at[j] = at[j] if out[-1][0] == "flush" else ""
                out.append([o, m])
            elif o == "bad":
                b = r.choice(["openbad", "wbad", "flushbad", "closebad", "endbad"])
                if b == "openbad":
                    m = r.choice([n for n in ("a", "b", "c", "dir/e") if all(at[j] != n for j in range(3) if j != i)])
                    out.append([b, i, m, r.randrange(2), r.choice(["open", "fdopen"]), r.choice(ERRS)]); at[i] = ""; dirty[i] = 0
                elif b == "wbad": out.append([b, i, r.randrange(3), "q", r.choice([1, 3])])
                elif b == "flushbad": out.append([b, i])
                elif b == "closebad": out.append([b, i, r.choice(["EIO", "EBADF", "EINTR", "ENOSPC"])]); at[i] = ""; dirty[i] = 0
                else: out.append([b, i]); at[i] = ""; dirty[i] = 0
            elif o == "flush": out.append([o, i]); dirty[i] = 0
            elif o in ("close", "new"): out.append([o, i]); at[i] = ""; dirty[i] = 0
            elif o == "name":
                if at[i]: out.append([o, i])
            else: out.append([o] if o == "fds" else [o, i])
        return out
    n = 200 if k.thorough else 40
    k.validate("FileS", dbg, [[["mode", 1]] + script(100) for _ in range(n)], "random histories of three files", chunks=4)
    k.validate("FileS", rel, [[["mode", 0]] + script(100) for _ in range(n)], "random histories of three files, release build", chunks=4)
