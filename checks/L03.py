from cmdgen import *


def run(k):
    exe = k.build("cmdline", [], opt="-O0")
    ds = [arg("switch", "a", "aa"), arg("switch", "b", "bb", dflt="1"), arg("mswitch", "v", "verbose", dflt="1")]
    ed = bounded(k, ds, ["-a", "--aa", "-b", "-v", "-ab", "-vav", "-bvb", "--verbose", "--", "-x"], 3, "switches")
    k.replay(exe, ed, "every token list of switches", maxlen=150)
    ds = [arg("switch", "a", "aa", now=0), arg("value", "i", "int", 0, "7", "int", now=0), ["xor", [1, 2]], arg("switch", "c", "cc"), arg("value", "r", "rr", 1)]
    ed = bounded(k, ds, ["-a", "-i", "5", "-ca", "-c", "-r", "--"], 4, "exclusive")
    k.replay(exe, ed, "every token list, an exclusive pair", maxlen=150)
    ds = [arg("switch", "a", "aa", now=0), arg("multi", "m", "mm", 0, now=0), arg("value", "i", "int", 1, "7", "int", now=0), ["xor", [1, 2, 3]], arg("switch", "c", "cc")]
    ed = bounded(k, ds, ["-a", "-i", "5", "-m", "-ac"], 4, "exclusive3")
    k.replay(exe, ed, "every token list, an exclusive triple", maxlen=150)
    sc = [session(k.rng, ["value", "multi", "switch", "switch", "switch", "mswitch"], errors=0, bad=.08, xor=.6, delims="   =") for i in range(800 if k.thorough else 140)]
    k.validate("CmdLineS", exe, sc, "random declarations and command lines", chunks=6)
