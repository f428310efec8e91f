from vlib import *
EXC = ["ecl_exceptions/src/lib/*.cpp"]
DEFS = r"""
Live == {i \in 1..3 : s.w[i].on # "none"}
Room(w) == Len(Arr(s, w)) - w.lo
Reads(i) == LET w == s.w[i] IN {<<op, i, j>> : op \in {"at", "idx"}, j \in (0..(w.n - 1)) \cup {Room(w), Room(w) + 1}}
   \cup {<<"size", i>>, <<"iter", i>>, <<"riter", i>>} \cup (IF w.n > 0 THEN {<<"front", i>>, <<"back", i>>} ELSE {})
   \cup (IF s.kind \in {"f", "d", "v"} THEN {<<"print", i>>} ELSE {})
Opens(i) == {<<"ctor", i, "a", st, n>> : st \in 0..3, n \in 0..4} \cup (IF s.kind \in {"f", "d"} THEN {<<"open", i, "a", st, n>> : st \in 0..4, n \in 0..3} ELSE {})
Subs(i, j) == LET w == s.w[i] IN {<<"sub", i, j, st, n>> : st \in 0..3, n \in 0..3}
SubOK(c) == LET w == s.w[c[2]] IN (c[4] < w.n /\ c[4] + c[5] <= w.n) \/ (c[4] + c[5] > Room(w))
Settles(i) == {<<"settle", i, st, n>> : st \in 0..3, n \in 0..4}
Writes(i) == LET w == s.w[i] IN {<<"put", i, j, v>> : j \in 0..(w.n - 1), v \in 7..8} \cup {<<"init", i, q>> : q \in {<<7>>, <<7, 8>>, <<8, 8, 7>>}}
"""


def run(k):
    exe = k.build("stencil", EXC)
    for kinds, tag in (("{\"f\", \"d\", \"v\", \"u\", \"c\"}", "windows"),):
        edges = k.mc("StencilS", DEFS, cmds=r"""
  IF s.kind = "none" THEN {<<"make", kd, <<1, 2, 3>>, <<4, 5, 6>>>> : kd \in %s}
  ELSE Opens(1) \cup (IF 1 \in Live THEN Reads(1) \cup {c \in Subs(1, 2) : SubOK(c)} \cup Settles(1) ELSE {})
     \cup (IF 2 \in Live THEN {<<"size", 2>>, <<"iter", 2>>, <<"at", 2, Room(s.w[2])>>} ELSE {})
""" % kinds, post="Inv == WindowsInside(s)", invariants=["Inv"], tag=tag)
        k.replay(exe, edges, "opening, sub-windows, resettling", maxlen=100)
    edges = k.mc("StencilS", DEFS, cmds=r"""
  IF s.kind = "none" THEN {<<"make", kd, <<1, 2, 3>>, <<4, 5, 6>>>> : kd \in {"f", "d", "v", "u"}}
  ELSE IF 1 \notin Live THEN {<<"ctor", 1, "a", st, n>> : st \in 0..1, n \in 1..2}
  ELSE IF 2 \notin Live THEN {<<"ctor", 2, x, st, n>> : x \in {"a", "b"}, st \in 0..1, n \in 0..2}
  ELSE Writes(1) \cup {<<"put", 2, j, 7>> : j \in 0..(s.w[2].n - 1)} \cup {<<"let", 1, 2>>, <<"iter", 2>>, <<"iter", 1>>}
""", post="Inv == WindowsInside(s)", invariants=["Inv"], tag="writes")
    k.replay(exe, edges, "writing through windows", maxlen=100)
    scripts = [walk(k.rng) for _ in range(400 if k.thorough else 100)]
    k.validate("StencilS", exe, scripts, "random histories", extra_defs="Inv == WindowsInside(s)", invariants=["Inv"])


def walk(rng):
    kind = rng.choice("fdvuc")
    la, lb = (lambda n: (n, n))(rng.choice([2, 3, 6])) if kind == "f" else (rng.randrange(1, 9), rng.randrange(1, 9))
    L = {"a": la, "b": lb}
    sc = [["make", kind, [rng.randrange(100) for _ in range(la)], [rng.randrange(100) for _ in range(lb)]]]
    w = {}
    for _ in range(60):
        i = rng.randrange(1, 4)
        if i not in w or rng.random() < .15:
            x = rng.choice("ab")
            st, n = rng.randrange(0, L[x] + 1), rng.randrange(0, L[x] + 2)
            op = "ctor" if kind in "uvc" or rng.random() < .5 else "open"
            sc.append([op, i, x, st, n])
            if st + n <= L[x] and (op == "ctor" or st < L[x]):
                w[i] = (x, st, n)
            continue
        x, st, n = w[i]
        room = L[x] - st
        u = rng.random()
        if u < .25:
            j = rng.choice([rng.randrange(n) if n else room, room, room + 2])
            sc.append([rng.choice(["at", "idx"]), i, j])
        elif u < .35:
            sc.append([rng.choice(["size", "iter", "riter"] + (["front", "back"] if n else []) + (["print"] if kind in "fdv" else [])), i])
        elif u < .55 and n and kind != "c":
            sc.append(["put", i, rng.randrange(n), rng.randrange(200)])
        elif u < .65 and kind != "c":
            sc.append(["init", i, [rng.randrange(100) for _ in range(rng.randrange(1, 5))]])
        elif u < .8:
            j = rng.randrange(1, 4)
            a, b = rng.randrange(0, room + 2), rng.randrange(0, room + 2)
            if (a < n and a + b <= n):
                sc.append(["sub", i, j, a, b]); w[j] = (x, st + a, b)
            elif a + b > room:
                sc.append(["sub", i, j, a, b])
        elif u < .88:
            a, b = rng.randrange(0, L[x] + 1), rng.randrange(0, L[x] + 1)
            sc.append(["settle", i, a, b])
            if a + b <= L[x]:
                w[i] = (x, a, b)
            else:
                del w[i]
        else:
            j = rng.choice(list(w))
            sc.append(["let", i, j])
            if kind in "uc" or w[j][0] == x:
                w[i] = w[j]
    return sc
