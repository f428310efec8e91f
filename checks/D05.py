from vlib import *
SRC = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_devices/src/lib/serial_pos.cpp", "ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp"]
FLAGS = ["-DVERIF_VIRTUAL_TIME", "-DECL_HAS_RT_TIMERS", "-DECL_HAS_TIMESTAMP", "-U_FORTIFY_SOURCE", "-Wl,--wrap=open,--wrap=read,--wrap=write,--wrap=tcsetattr"]
BAD = {"open": ["ENOENT", "EACCES", "EMFILE", "EINTR", "EBUSY", "ENOMEM", "ELOOP", "EROFS"], "read": ["EIO", "EINTR", "EAGAIN", "EBADF", "EFAULT", "ENOMEM"], "write": ["EIO", "EINTR", "EAGAIN", "ENOSPC", "EBADF", "EPIPE", "EFBIG", "EFAULT"]}


class Hist:
    """histories of two handles on two ports; keeps only what is needed to stay within what is judged"""

    def __init__(self, r):
        self.r = r; self.out = []; self.on = [None, None]; self.bits = [8, 8]; self.q = [0, 0]; self.pend = [0, 0]; self.gone = [0, 0]; self.held = [0, 0]

    def data(self, n, wide):
        return [self.r.randrange(256 if wide else 128) for _ in range(n)]

    def size(self):
        return self.r.choice([1, 1, 2, 3, 5, 9] if self.r.random() < .9 else [40, 200])

    def opening(self, how):
        r = self.r; h = r.randrange(2); p = r.randrange(2)
        if self.on[1 - h] == p: p = 1 - p
        if self.on[1 - h] == p: return
        d = r.choice([8, 8, 8, 5, 6, 7]); a = [h, "pq"[p], r.choice([10, 10, r.randrange(14)]), d, r.choice([0, 0, 0, 2]), r.choice([0, 0, 1, 2])]
        u = r.random(); fails = False
        if u < .05: a[2] = r.choice([14, 15]); fails = True
        elif u < .1: a[4] = 1; fails = True
        elif u < .2: self.out.append(["bad", "open", r.choice(BAD["open"])]); fails = True
        if a[4] != 1 or how == "raii":
            self.on[h] = None
            if self.gone[p] or self.held[p]: fails = True
            if not fails: self.on[h] = p; self.bits[p] = d; self.q[p] = 0
        self.out.append([how] + a + ([r.choice([0, 85, 170, 255])] if how == "raii" else []))
        if a[4] == 1: self.out.append(["close", h]); self.on[h] = None

    def step(self):
        r = self.r; h = r.randrange(2); n = "pq"; p = r.randrange(2); o = r.choice(["open", "raii", "new", "close", "feed", "feed", "feed", "soon", "soon", "tick", "read", "read", "read", "read", "read", "block", "unblock", "remaining", "write", "write", "line", "clear", "flush", "isopen", "fds", "bad", "pull", "other", "grab"])
        w = self.out.append
        if o in ("open", "raii"):
            if r.random() < .6 or self.on[h] is None: self.opening(o)
        elif o == "new":
            if r.random() < .3: w([o, h, r.choice([0, 85, 170, 255])]); self.on[h] = None
        elif o == "close":
            if r.random() < .4: w([o, h]); self.on[h] = None
        elif o == "feed":
            if self.q[p] < 2000: k = self.size(); self.q[p] += k; w([o, n[p], self.data(k, self.bits[p] == 8)])
        elif o == "soon":
            if not self.pend[p]: self.pend[p] = 1; self.q[p] += 5; w([o, n[p], r.choice([1, 2, 3, 4, 5, 10, 17, 19, 20, 50, 99, 100, 101, 200, 450, 1000, 5000, 6000, 26000]), self.data(r.choice([1, 2, 5]), False)])
        elif o == "tick": w([o, r.choice([0, 1, 3, 10, 99, 100, 500, 3000])]); 
        elif o == "read": w([o, h, r.choice([0, 0, 1, 2, 5, 20, 1000]), r.randrange(3)])
        elif o == "block": w([o, h, r.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 19, 20, 21, 22, 50, 95, 98, 99, 100, 101, 150, 199, 200, 250, 500, 1000, 2550, 5000, 25400, 25500, 25600, 26000, 30000, 51200, 60000])])
        elif o == "write":
            v = r.randrange(6); w([o, h, v, self.data(r.choice([0, 1, 2, 5, 30] if v < 3 else [1, 2, 4]), True)])
        elif o == "line": w([o, n[p]])
        elif o == "clear": w([o, h, r.randrange(3)])
        elif o == "bad":
            if self.on[h] is not None:
                c = r.choice(["read", "write"]); w([o, c, r.choice(BAD[c])]); w(["read", h, r.choice([0, 2]), r.randrange(3)] if c == "read" else ["write", h, r.randrange(6), self.data(2, False)])
        elif o == "pull":
            if r.random() < .3 and not self.gone[p]:
                w([o, n[p]]); self.gone[p] = 1
                if r.random() < .7: w(["isopen", 0]); w(["isopen", 1]); self.on = [None if x == p else x for x in self.on]; w(["fds"])
                if r.random() < .3: self.opening("open")
                w(["plug", n[p]]); self.gone[p] = 0
        elif o in ("other", "grab"):
            if r.random() < .3 and not self.gone[p]:
                w([o, n[p]])
                if o == "grab" and p not in self.on and not any(self.held):
                    self.held[p] = 1
                    for _ in range(3): self.opening(r.choice(["open", "raii"]))
                    w(["fds"]); w(["ungrab"]); self.held[p] = 0
        else: w([o] + ([] if o == "fds" else [h]))

    def drain(self):
        for p in (0, 1):
            if self.pend[p]: self.out.append(["tick", 30000]); self.pend = [0, 0]


def history(r, n):
    x = Hist(r)
    while len(x.out) < n:
        x.step()
        if r.random() < .05: x.drain()
    return x.out + [["fds"], ["close", 0], ["close", 1], ["fds"]]


def run(k):
    dbg, rel = k.builds([("serial", SRC, dict(flags=FLAGS, san="address,undefined")), ("serial", SRC, dict(flags=FLAGS + ["-DNDEBUG"], out="serial_rel", opt="-O2"))])
    cmds = r"""{<<"feed", "p", b>> : b \in {<<1>>, <<2, 3>>}} \cup {<<"clear", 0, w>> : w \in 0..2} \cup {<<"remaining", 0>>, <<"fds">>, <<"line", "p">>, <<"close", 0>>, <<"isopen", 0>>, <<"isopen", 1>>, <<"new", 0, 170>>}
 \cup {<<IF s.gone[0] = 1 THEN "plug" ELSE "pull", "p">>} \cup {<<"write", 0, w, <<9, 200>>>> : w \in {0, 4}}
 \cup (IF s.h[0].tmo # 5000 THEN {} ELSE {<<"open", 0, "p", b, 8, 0, 1>> : b \in {10, 14}})
 \cup (IF s.h[0].on = 1 /\ s.q[0] = <<>> THEN {<<"unblock", 0>>} ELSE {})
 \cup (IF s.h[0].on = 0 \/ s.h[0].tmo = -1 \/ s.q[0] # <<>> THEN {<<"read", 0, n, 0>> : n \in {0, 2}} ELSE {})"""
    e = k.mc("SerialS", "", cmds=cmds, constraint='Len(s.q[0]) < 4 /\\ TLCGet("level") <= %d' % (8 if k.thorough else 6))
    k.replay(dbg, e, "one handle, its port and the peer", maxlen=300)
    r = k.rng
    sweep = []
    for t in list(range(0, 25)) + [49, 50, 51, 95, 96, 99, 100, 150, 199, 500, 5000, 25500, 25600, 26000, 51200]:
        for at in sorted({1, 2, max(1, t - 6), max(1, t - 1), t + 1, t + 10}):
            sweep.append([["mode", 1], ["open", 0, "p", 10, 8, 0, 0], ["block", 0, t], ["read", 0, 0, 0], ["soon", "p", at, [7, 8, 9]], ["read", 0, 2 if t % 2 else 0, t % 3], ["tick", 60000], ["read", 0, 3, 1], ["feed", "p", [4]], ["read", 0, 0, 2], ["unblock", 0], ["read", 0, 5, 0], ["read", 0, 0, 0]])
    for b in range(14):
        for d in range(5, 9):
            for st in (0, 2):
                sweep += [[["mode", 1], ["open", 0, "p", b, d, st, pa], ["line", "p"], ["feed", "p", [0, 1, 10, 13, 3, 17, 19, 26, 127] + ([128, 200, 254] if d == 8 else [])], ["read", 0, 50, 0], ["write", 0, 0, [10, 13, 3, 17, 19, 0, 127, 128, 255]]] for pa in range(3)]
    n = 200 if k.thorough else 60
    k.validate("SerialS", dbg, sweep if k.thorough else r.sample(sweep, 200), "every timeout and setting", chunks=4)
    k.validate("SerialS", dbg, [[["mode", 1]] + history(r, 60) for _ in range(n)], "random histories", chunks=4)
    k.validate("SerialS", rel, [[["mode", 0]] + history(r, 60) for _ in range(n // 2)], "random histories, release build", chunks=2)
