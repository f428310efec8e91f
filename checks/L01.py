from cmdgen import *


def run(k):
    exe = k.build("cmdline", [], opt="-O0")
    ds = [arg("value", "i", "int", 0, "7", "int"), arg("value", "s", "str", 1, "d", "string"), arg("uval", "", "pos", 0, "0.5", "double")]
    ed = bounded(k, ds, ["-i", "--int", "-s", "5", "-05", "x y", "1.50"], 4 if k.thorough else 3, "values")
    k.replay(exe, ed, "every token list, labelled and positional values", maxlen=150)
    ds = [arg("value", "i", "int", 0, "7", "int", allow=["5", "11"]), arg("value", "", "ch", 0, "q", "char"), arg("value", "r", "real", 0, "2", "double")]
    ed = bounded(k, ds, ["-i=5", "--int=011", "--ch=a", "-r=2.50", "-i", "--real=-.5", "-r=1=2", "--ch==", "5"], 3, "attached", delim="=")
    k.replay(exe, ed, "every token list, attached values", maxlen=150)
    sc = [session(k.rng, ["value", "value", "uval", "multi", "switch"], errors=0, bad=.06, xor=.1, delims="  =:") for _ in range(600 if k.thorough else 120)]
    k.validate("CmdLineS", exe, sc, "random declarations and command lines", chunks=6)
