from cmdgen import *


def run(k):
    exe = k.build("cmdline", [], opt="-O0")
    ds = [arg("multi", "m", "mm", 1, "", "int"), arg("uval", "", "p", 1, "0", "int", desc="one"), arg("umulti", "", "rest", 0, "", "string", desc="two")]
    ed = bounded(k, ds, ["-m", "--mm", "5", "12", "x", "--"], 5 if k.thorough else 4, "positional")
    k.replay(exe, ed, "every token list, repeated and positional arguments", maxlen=150)
    ds = [arg("multi", "m", "mm", 0, "", "string", allow=["5", "x"]), arg("umulti", "", "rest", 1, "", "int", allow=["5", "12"])]
    ed = bounded(k, ds, ["-m", "-m 5", "5", "12", "x", "--", "-m"], 4, "constrained")
    k.replay(exe, ed, "every token list, constrained lists", maxlen=150)
    sc = [session(k.rng, ["multi", "multi", "uval", "umulti", "umulti", "switch"], errors=0, bad=.08, xor=.3, delims="   =:") for i in range(800 if k.thorough else 140)]
    k.validate("CmdLineS", exe, sc, "random declarations and command lines", chunks=6)
