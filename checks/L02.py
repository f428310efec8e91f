from cmdgen import *


def run(k):
    exe = k.build("cmdline", [], opt="-O0")
    ds = [arg("value", "i", "int", 1, "7", "int", allow=["5", "6"]), arg("switch", "a", "aa"), arg("multi", "m", "mm", 0, "", "int")]
    ed = bounded(k, ds, ["-i", "--int", "5", "9", "5 6", "", "-a", "-ab", "-m", "-q", "stray"], 3, "rejects")
    k.replay(exe, ed, "every token list with errors", maxlen=150)
    # what may be declared
    scs = []
    for d in ([arg("switch", "a", "x"), arg("value", "a", "y"), arg("multi", "b", "x"), arg("switch", "", "x", desc="other"), arg("value", "bb", "z"), arg("mswitch", "-", "z"), arg("value", " ", "z"), arg("switch", "c", "z-z"), arg("multi", "c", "z z")],
              [arg("uval", "", "p", 1), arg("uval", "", "p", 1, desc="other"), arg("uval", "", "q", 1, desc="the p"), arg("uval", "", "r", 0), arg("uval", "", "t", 1), arg("umulti", "", "u", 0), arg("uval", "", "w", 0)],
              [arg("value", "h", "hh"), arg("switch", "v", "version"), arg("multi", "", "help"), arg("switch", "k", "ok")]):
        scs.append([["cmd", " ", 1, "1", "m", "p"]] + d + [["parse", 0, []], ["parse", 0, ["-a"]], ["parse", 0, ["1"]]])
    k.validate("CmdLineS", exe, scs, "ill-formed and clashing declarations", chunks=1)
    sc = [session(k.rng, ["value", "value", "uval", "multi", "switch", "umulti", "mswitch"], errors=.15 if i % 2 else 0, bad=.35, xor=.3, delims="   =") for i in range(800 if k.thorough else 140)]
    k.validate("CmdLineS", exe, sc, "random declarations and faulty command lines", chunks=6)
