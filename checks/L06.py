from cmdgen import *


def run(k):
    exe = k.build("cmdline", [], opt="-O0")
    ds = [arg("switch", "a", "aa", now=0), arg("value", "i", "int", 0, "7", "int", now=0, allow=["1", "22"]), arg("value", "k", "kk", 0, "7", "int", now=0), ["xor", [1, 2, 3]], arg("mswitch", "c", "cc", desc="<counts> & more"), arg("multi", "r", "rr", 1), arg("uval", "", "p", 1)]
    ed = bounded(k, ds, ["-h", "--version", "-a", "-r", "bad"], 3 if k.thorough else 2, "docbook", helpver=1, full=1, doc=1)
    k.replay(exe, ed, "documents, version and failure texts", maxlen=150)
    sc = [session(k.rng, ["value", "multi", "switch", "mswitch", "uval", "umulti"], errors=0, bad=.3, xor=.7, full=1, parses=4, delims="   =", doc=1, helpver=1) for i in range(500 if k.thorough else 120)]
    k.validate("CmdLineS", exe, sc, "random declarations and their documents", chunks=6)
