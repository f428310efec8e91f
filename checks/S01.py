from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_threads/src/lib/mutex_pos.cpp"]


class Gen:
    """keeps the commands possible: who is what, no signal reaches itself, one thing armed at a time"""
    def __init__(g, r): g.r = r; g.h = {}; g.kind = r.randrange(2); g.out = [["kind", g.kind]]; g.armed = None; g.run = None; g.dying = False

    def last(g, v): return sum(1 for w in g.h if g.h[w] is g.h[v]) == 1

    def step(g):
        r = g.r; h = g.h; o = g.out; v = r.randrange(8); n = h.get(v); t = r.randrange(3); T = "abc"
        if n is None:
            x = r.choice(["signal", "slot", "slot", "slot", "copy", "copy", "raw"])
            if x == "copy":
                w = [w for w in h if h[w]["k"] != "raw"]
                if w: w = r.choice(w); h[v] = h[w]; o.append(["copy", v, w])
                return
            f = r.randrange(2 if x == "raw" else 4); h[v] = n = dict(k=x, f=f, p=set(), s=set())
            arg = [] if x == "signal" else [f]
            if x != "raw" and r.random() < .5: n["p" if x == "signal" else "s"].add(t); arg.append(T[t])
            o.append([x, v] + arg); return
        x = r.choice(["pub"] * 4 + ["sub"] * 4 + ["disc", "end", "assign", "conns", "disc1", "stats"] + ["emit"] * 5 + ["arm"] * 2 + (["go"] * 3 + ["tend"] * 3 if g.run else ["temit"] * 2))
        if x == "pub" and n["k"] != "slot":
            if any(t <= s for s in n["s"]) and n["k"] == "signal": return
            n["p"].add(t); o.append([x, v, T[t]])
        elif x == "sub":
            if any(t >= p for p in n["p"]) and n["k"] == "signal": return
            n["s"].add(t); o.append([x, v, T[t]])
        elif x == "disc": n["p"].clear(); n["s"].clear(); o.append([x, v])
        elif x == "disc1" and n["k"] == "raw": n["p"].discard(t); n["s"].discard(t); o.append([x, v, T[t]])
        elif x == "conns" and g.kind and n["k"] != "signal": o.append([x, v])
        elif x == "stats": o.append([x])
        elif x in ("end", "tend"):
            if g.run and g.last(v) and (x == "end" and (n["k"] == "signal" or n is g.run["n"] or n["f"] == g.run["f"]) or n is g.run["n"]): return
            if x == "tend" and (g.dying or (n["k"] == "signal" and g.last(v))): return
            if x == "tend" and g.last(v) and n["f"] == g.run["f"]: g.dying = True
            del h[v]; o.append([x, v])
        elif x == "assign":
            w = [w for w in h if h[w]["k"] == n["k"] != "raw"]
            if not w: return
            w = r.choice(w)
            if g.run and h[w] is not n and g.last(v): return
            o.append([x, v, w]); h[v] = h[w]
        elif x in ("emit", "temit") and n["k"] != "slot":
            if g.armed: return
            o.append([x, v, "5"])
        elif x == "go": o.append([x]); g.run = None; g.dying = False
        elif x == "arm" and not g.run: g.arm(v)

    def arm(g, v):
        # arm a function and emit right away, so that it is known what it meets
        r = g.r; h = g.h; o = g.out; T = "abc"; f = r.randrange(4); what = r.choice(["throw", "pause", "drop", "end", "link", "emit", "pause"]); w = r.randrange(8); t = r.randrange(3); m = h.get(w)
        if m:
            if what == "link" and m["k"] != "slot": return
            if what == "end" and (m["k"] != "slot" or (m["f"] == f and g.last(w))): return
            if what == "emit" and m["k"] != "signal": return
        if what == "emit" and (not m or not m["p"]): return
        em = [e for e in h if h[e]["k"] != "slot" and h[e]["p"]]
        if not em: return
        e = r.choice(em); S = set(); todo = [h[e]]; seen = []     # who is reached
        while todo:
            q = todo.pop(); seen.append(q)
            for z in h.values():
                if z["s"] & q["p"] and not any(z is y for y in seen):
                    if z["k"] == "signal": todo.append(z)
                    else: S.add(z["f"])
        if f not in S: return
        hit = [z for z in h.values() if z["k"] != "signal" and z["f"] == f]
        if what == "pause":
            o += [["arm", f, what, 0, "%e"], ["temit", e, "5"]]; g.run = dict(n=h[e], f=f); return
        o += [["arm", f, what, w, T[t]], ["emit", e, "5"]]
        if m:
            if what == "drop": m["p"].clear(); m["s"].clear()
            if what == "link": m["s"].add(t)
            if what == "end": del h[w]


def run(k):
    dbg, rel = k.builds([("sigslot", SRC, dict(flags=["-pthread"])), ("sigslot", SRC, dict(flags=["-DNDEBUG", "-pthread"], opt="-O2", out="sigslot_rel"))])
    cm = r"""({<<"signal", 0>>, <<"signal", 1, "a">>, <<"slot", 2, 0>>, <<"slot", 3, 1, "a">>, <<"copy", 3, 2>>, <<"assign", 3, 2>>, <<"assign", 2, 3>>, <<"assign", 0, 1>>, <<"stats">>, <<"go">>} \cup
      {<<o, v>> : o \in {"end", "disc"}, v \in 0..3} \cup {<<"tend", 2>>, <<"tend", 3>>} \cup {<<"emit", v, "5">> : v \in 0..1} \cup {<<"temit", 0, "5">>} \cup {<<"pub", 0, "a">>, <<"sub", 2, "a">>, <<"sub", 1, "a">>, <<"pub", 1, "b">>, <<"sub", 2, "b">>} \cup
      {<<"arm", 0, "pause", 0, "">>, <<"arm", 0, "drop", 3, "">>, <<"arm", 0, "throw", 0, "">>, <<"arm", 1, "end", 2, "">>})"""
    acyc = "Fine(t) == \\A n \\in 1..NN : ~(t.node[n].k = \"signal\" /\\ \\E p \\in t.node[n].pubs, q \\in t.node[n].subs : p <= q)"
    e = k.mc("SigSlotS", acyc, cmds="{c \\in %s : Cardinality(Step(s, c)) = 1 /\\ \\A o \\in Step(s, c) : Fine(o.s) /\\ ActOk(o.s, o.s.act)}" % cm, constraint="(TLCGet(\"level\") <= %d)" % (8 if k.thorough else 6))
    k.replay(dbg, e, "situations of two signals and two slots", maxlen=50)
    r = k.rng

    def script(n, leak):
        g = Gen(r)
        while len(g.out) < n: g.step()
        if g.run: g.out.append(["go"])
        return g.out + [["stats"]] + ([["over"]] if leak else [])
    n = 400 if k.thorough else 120
    k.validate("SigSlotS", dbg, [script(60, i % 4 == 0) for i in range(n)], "random histories of signals and slots", chunks=6)
    k.validate("SigSlotS", rel, [script(80, 1) for i in range(n)], "random histories of signals and slots, release build", chunks=6)
    for exe, w in ((dbg, ""), (rel, ", release build")): k.validate("SigSlotS", exe, [[["race", t, 3000 if k.thorough else 600]] for t in (2, 3, 6, 8)], "threads at full speed" + w, chunks=1)
