from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]


def run(k):
    MS = SRC + ["ecl_linear_algebra/src/lib/*.cpp"]
    dbg, rel, md, mr = k.builds([("contfmt", SRC, dict(san="address,undefined")), ("contfmt", SRC, dict(flags=["-DNDEBUG"], out="contfmt_rel")), ("matfmt", MS, {}), ("matfmt", MS, dict(flags=["-DNDEBUG"], opt="-O2", out="matfmt_rel"))])
    e = k.mc("ContFmtS", "", cmds=r"""
  {<<"new", 2, 1, 6>>, <<"new", 0, 3, -1>>, <<"copy">>, <<"getp">>, <<"prec", 0>>, <<"width", 7>>, <<"set", 1, -1>>, <<"out">>}
  \cup {<<"give", v>> : v \in {<<8, -20, 800>>, <<0, 0, 4>>}} \cup {<<"givetmp", <<-81, 12, 3>>, p, w>> : p \in {0, 2}, w \in {-1, 8}}""", constraint='TLCGet("level") <= %d' % (6 if k.thorough else 5))
    k.replay(dbg, e, "settings, containers and outputs", maxlen=400)
    e = k.mc("ContFmtS", "V == {0, 15, 16, 127, 128, 255}", cmds=r"""{<<"bytes", t, <<a, b, 10, 200>>, f, n>> : t \in 0..8, a, b \in V, f \in 0..2, n \in 0..2} \cup {<<"bytes", t, <<a, b, 10, 200>>, 0, 4>> : t \in 0..9, a, b \in V}
      \cup {<<"bytes", 9, <<a, b, 10, 200>>, 0, n>> : a \in V, b \in {1}, n \in 0..3} \cup {<<"bytes", t, <<a, 7>>, 0, n>> : t \in 0..8, a \in V, n \in 0..2}""", tag="bytes")
    k.replay(dbg, e, "bytes", maxlen=2000)
    r = k.rng

    def script(n):
        out = []; kind = 2; ready = tmp = False
        for _ in range(n):
            val = lambda: [r.choice([0, 1, -1, 8, 79, 80, 72, -72, -80, 799, 792, 800, r.randrange(-100, 100), r.randrange(-10 ** 5, 10 ** 5)]) for _ in range(3 if kind < 2 else r.randrange(6))]
            p = r.choice([0, 1, 2, 3, 4, 9, 10, 12]); w = r.choice([-1, -1, 0, 1, 5, 9, 14])
            o = r.choice(["new", "copy", "getp", "prec", "width", "set", "give", "give", "give", "givetmp", "givetmp", "out", "out", "out", "out", "out"])
            if o == "new":
                kind = r.randrange(6); ready = tmp = False; out.append([o, kind, p, w])
            elif o in ("prec", "width", "set"):
                if tmp: continue
                out.append({"prec": [o, p], "width": [o, w], "set": [o, p, w]}[o])
            elif o == "give": out.append([o, val()]); ready = True
            elif o == "givetmp": out.append([o, val(), p, w]); ready = tmp = True
            elif o == "out":
                if not ready and r.random() < .7: continue
                out.append([o]); ready = tmp = False
            else: out.append([o])
        return out
    sc = [script(70) for _ in range(200 if k.thorough else 60)]
    k.validate("ContFmtS", dbg, [[["mode", 1]] + s for s in sc], "random histories", chunks=4)
    def rel_ok(s):
        out = []; ready = False
        for c in s:
            if c[0] == "out":
                if not ready: continue
                ready = False
            if c[0] in ("give", "givetmp"): ready = True
            if c[0] == "new": ready = False
            out.append(c)
        return out
    k.validate("ContFmtS", rel, [[["mode", 0]] + rel_ok(s) for s in sc[:30]], "random histories, release build", chunks=2)
    # matrices
    e = k.mc("MatFmtS", "", cmds=r"""
  {<<"new", 2, 1, 6>>, <<"new", 4, 3, -1>>, <<"new", 0, 0, 0>>, <<"copy">>, <<"get">>, <<"prec", 0>>, <<"width", 7>>, <<"out">>}
  \cup {<<"give", n, v>> : n \in 1..2, v \in {<<8, -20, 800>>, <<0, 4, -4, 100>>}} \cup {<<"givetmp", 2, <<-81, 12, 3, 8000>>, w, p>> : p \in {0, 2}, w \in {-1, 8}}""", constraint='TLCGet("level") <= %d' % (6 if k.thorough else 5), tag="mat")
    k.replay(md, e, "settings, matrices and outputs", maxlen=400)

    def script(n):
        out = []; kind = 4; ready = tmp = False; SH = {0: (1, 3), 1: (3, 1), 2: (2, 2), 3: (1, 3)}
        p = lambda: r.choice([0, 1, 2, 3, 4, 6, 7]); w = lambda: r.choice([-1, -1, 0, 1, 5, 9, 14])
        out.append(["new", 4, 2, -1])
        for _ in range(n):
            o = r.choice(["new", "copy", "get", "prec", "width", "give", "give", "give", "givetmp", "givetmp", "out", "out", "out", "out", "out"])
            a, b = SH.get(kind) or (r.randrange(1, 5), r.randrange(1, 5))
            if o == "new": kind = r.randrange(6); ready = tmp = False; out.append([o, kind, p(), w()])
            elif o == "prec": out.append([o, p()])
            elif o == "width": out.append([o, w()])
            elif o in ("give", "givetmp"):
                if tmp and o == "give": continue
                out.append([o, a, [r.choice([0, 1, -1, 8, 79, 80, 800, r.randrange(-100, 100), r.randrange(-10 ** 5, 10 ** 5)]) for _ in range(a * b)]] + ([w(), p()] if o == "givetmp" else [])); ready = True; tmp = tmp or o == "givetmp"
            elif o == "out":
                if not ready and r.random() < .7: continue
                out.append([o]); ready = tmp = False
            else: out.append([o])
        return out
    sc = [script(70) for _ in range(200 if k.thorough else 60)]
    k.validate("MatFmtS", md, [[["mode", 1]] + s for s in sc], "random matrices", chunks=4)
    k.validate("MatFmtS", mr, [[["mode", 0]] + rel_ok(s) for s in sc[:30]], "random matrices, release build", chunks=2)
