from cmdgen import *


def run(k):
    exe = k.build("cmdline", [], opt="-O0")
    ds = [arg("switch", "a", "aa", now=0), arg("value", "i", "int", 0, "7", "int", now=0, allow=["1", "22"]), ["xor", [1, 2]], arg("mswitch", "c", "cc"), arg("multi", "r", "rr", 1), arg("uval", "", "p", 1)]
    ed = bounded(k, ds, ["-h", "--version", "-a", "-ch", "bad"], 2, "usage", helpver=1, full=1)
    k.replay(exe, ed, "usage, version and failure texts", maxlen=150)
    sc = [session(k.rng, ["value", "multi", "switch", "mswitch", "uval", "umulti"], errors=0, bad=.4, xor=.5, full=1, parses=4, delims="   =") for i in range(500 if k.thorough else 120)]
    k.validate("CmdLineS", exe, sc, "random declarations and their texts", chunks=6)
