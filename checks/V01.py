from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp"]
W = [4, 4, 8, 8, 8, 2, 2, 8, 1]


def run(k):
    dbg, rel = k.builds([("bytes", SRC, dict(flags=["-DECL_HAS_EXCEPTIONS"])), ("bytes", SRC, dict(flags=["-DECL_HAS_EXCEPTIONS", "-DNDEBUG"], out="bytes_rel"))])
    e = k.mc("BytesS", "V == {0, 1, 127, 128, 255}\nHD == {\"0\", \"x\", \" \", \"7\", \"a\", \"F\", \"g\"}\nTups(n) == UNION {[1..m -> HD] : m \\in 0..n}", cmds=r"""
  {<<"from", t, a, 4, b>> : t \in {0, 1}, a \in 0..2, b \in UNION {[1..n -> V] : n \in 0..3} \cup [1..4 -> {1, 128, 255}] \cup {<<1, 2, 3, 4, 5>>}} \cup {<<"from", t, a, 2, b>> : t \in {5, 6}, a \in 0..2, b \in UNION {[1..n -> V] : n \in 0..2} \cup {<<1, 2, 3>>}}
  \cup {<<"from", 8, a, 1, b>> : a \in 0..2, b \in {<<>>, <<0>>, <<127>>, <<128>>, <<1, 2>>}} \cup {<<"from", t, a, 8, [i \in 1..n |-> IF i = j THEN v ELSE z]>> : t \in {2, 3, 4, 7}, a \in 0..2, n \in {1, 3, 4, 5, 8, 9}, j \in 1..8, v \in {127, 128, 255}, z \in {0, 1, 255}}
  \cup {<<"to", t, a, n, [i \in 1..4 |-> IF i = j THEN v ELSE z]>> : t \in {0, 1}, a \in 0..2, n \in {0, 3, 4, 5}, j \in 1..4, v \in {1, 127, 128}, z \in {0, 255}} \cup {<<"to", t, a, n, [i \in 1..8 |-> IF i = j THEN v ELSE z]>> : t \in {2, 3, 4}, a \in 0..2, n \in {4, 7, 8, 9}, j \in 1..8, v \in {1, 128}, z \in {0, 255}}
  \cup {<<"hex", 0, q>> : q \in Tups(%d)} \cup {<<"hex", 0, <<"0", "x">> \o q>> : q \in Tups(%d)} \cup {<<"hex", 0, <<"0", "x", "4", "b">> \o q>> : q \in Tups(2)}""" % ((5, 4) if k.thorough else (4, 3)))
    k.replay(dbg, e, "every short conversion", maxlen=3000)
    k.replay(rel, e, "every short conversion, release build", maxlen=3000)
    r = k.rng
    scripts = []
    for _ in range(200 if k.thorough else 40):
        sc = []
        for j in range(60):
            t = r.randrange(9); w = W[t]
            by = lambda n: [r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n)]
            t2 = r.randrange(5)
            h = []
            for _ in range(r.randrange(6)):
                h += [" "] * r.randrange(3) + ["0", "x", r.choice("0123456789abcdefABCDEF"), r.choice("0123456789abcdefABCDEF")]
            if h and r.random() < .3:
                i = r.randrange(len(h)); h[i] = r.choice("0xgG 9-")
            if h and r.random() < .2: h.pop()
            sc.append(r.choice([["from", t, r.randrange(3), w, by(r.randrange(w + 2))], ["to", t2, r.randrange(3), r.choice([W[t2]] * 4 + [0, 3, 7, 9]), by(W[t2])], ["hex", 0, h]]))
        scripts.append(sc)
    k.validate("BytesS", dbg, scripts, "random conversions")
    k.validate("BytesS", rel, scripts, "random conversions, release build", chunks=2)
    k.assumptions.append("this platform stores integers lowest byte first; the driver builds the integer from its bytes by copying them")
