from streamgen import *


def run(k):
    mem, ss, rel = drivers(k)
    # every short text read as every type
    e = k.mc("StreamS", "", cmds=r"""{c \in {<<"text", 0, q>> : q \in UNION {[1..n -> {"0", "7", "-", "x", ".", " ", "a"}] : n \in 1..%d}} \cup {<<"read", t>> : t \in {1, 5, 9, 11, 12, 14}} : Cardinality(Step(s, c)) = 1}""" % (4 if k.thorough else 3),
             constraint='s.rd = 0 /\\ Len(s.buf) <= %d /\\ s.err = "" /\\ TLCGet("level") <= 2' % (4 if k.thorough else 3))
    k.replay(ss, e, "every short text as every type", maxlen=2000)
    # limits of every type, with every single point of failure of the device
    sc = []
    for t in range(9):
        one = []
        for v in (MAX[t], MAX[t] + 1, MIN[t], MIN[t] - 1, MAX[t] // 10, MAX[t] // 10 * 10 + 9):
            for f in ("%d", "+%d", "00%d", "0x%x", "x%X"):
                if v < 0 and f != "%d": continue
                for end in ("", " ", ","):
                    one += [["text", 0, list(f % v + end)], ["read", t + 1], ["left"], ["clear"]]
        sc.append(one)
    k.validate("StreamS", ss, sc, "limits of every type", chunks=4)
    sc = []
    for tx in ("  12 34", "-5", "0x1F ", "0", "00 ", "3.25 ", "-.5,", "true x", "\n ab"):
        for t in (1, 5, 11, 12, 13, 14):
            for b in range(1, len(tx) + 2):
                sc += [["text", 0, list(tx)], ["break", b], ["read", t], ["left"], ["heal"], ["read", t], ["left"], ["clear"]]
    k.validate("StreamS", mem, [sc[i * 400:(i + 1) * 400] for i in range((len(sc) + 399) // 400)], "the device fails at every point", chunks=4)
    r = k.rng
    n = 200 if k.thorough else 40
    k.validate("StreamS", mem, [script(r, 90, True) for _ in range(n)], "random texts, reads and device failures", chunks=4)
    k.validate("StreamS", ss, [script(r, 90, False) for _ in range(n)], "random texts and reads of string streams", chunks=4)
    k.validate("StreamS", rel, [script(r, 90, False) for _ in range(n // 2)], "random texts and reads, release build", chunks=2)
