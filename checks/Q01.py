from vlib import *
B = ["iterator", "begin", "end", "size"]
CH = lambda f: [f + ":s", f + ":c", f + ":u"]
ASKS = {"Container": B, "DynamicContainer": B + ["resize"], "ByteContainer": B + ["value:char"], "SignedByteContainer": B + ["value:signed"], "UnsignedByteContainer": B + ["value:unsigned"], "InputCharDevice": ["open", "read:c", "readn:c"], "OutputCharDevice": ["open", "write:c", "writen:c", "flush"],
        "InputOutputCharDevice": ["read:c", "readn:c", "write:c", "writen:c", "flush"], "InputByteDevice": ["isOpen"] + CH("read") + CH("readn"), "OutputByteDevice": ["isOpen", "flush"] + CH("write") + CH("writen"), "InputOutputByteDevice": ["isOpen", "flush"] + CH("read") + CH("readn") + CH("write") + CH("writen"),
        "Stream": ["put", "flush"], "NullaryFunction": ["result", "call"], "BluePrint": ["base", "instantiate", "apply"], "Own": ["go"]}
TYPES = ("iterator", "value", "result", "base")
ALL = sorted({f for v in ASKS.values() for f in v if not f.startswith("value")})


def run(k):
    exe = k.build("concept", [])
    env = {"VERIF_CXX": "g++ -std=c++14 -w -fsyntax-only " + " ".join(k.includes())}
    # every type made of these features
    e = k.mc("ConceptS", "LOCAL INSTANCE SequencesExt\nF == {\"iterator\", \"begin\", \"end\", \"size\", \"resize\", \"value:char\"}\nG == {\"base\", \"instantiate\", \"apply~\", \"result\", \"call\"}",
             cmds=r"""{<<"check", c, 0, SetToSeq(x)>> : c \in {"Container", "DynamicContainer", "ByteContainer"}, x \in SUBSET F} \cup {<<"check", c, 1, SetToSeq(x)>> : c \in {"BluePrint", "NullaryFunction"}, x \in SUBSET G}
 \cup {<<"check", c, 0, SetToSeq(x)>> : c \in {"Stream"}, x \in SUBSET {"put", "flush", "open"}}""".replace("\\\\", "\\"))
    k.replay(exe, e, "every combination of features", env=env, maxlen=40, walk=0, par=8, timeout=300)
    r = k.rng
    cmds = []
    for c, fs in ASKS.items():
        w = lambda: r.randrange(5)
        cmds.append(["check", c, w(), fs])
        for j, f in enumerate(fs): # one thing missing, of the wrong kind, not public
            rest = fs[:j] + fs[j + 1:]
            cmds.append(["check", c, w(), rest])
            if not f.startswith(TYPES): cmds.append(["check", c, w(), rest + [f + "~"]])
            cmds.append(["check", c, w(), rest + [f + "-"]])
        for t in ("char", "signed", "unsigned", "int", "short", "bool", "float"):
            if "ByteContainer" in c: cmds.append(["check", c, w(), B + ["value:" + t]])
        for p in range(5): cmds += [["check", c, p, fs], ["check", c, p, fs[1:]]]
        for _ in range(30 if k.thorough else 4): # more than what is asked for; any part of it
            more = [f for f in ALL if f not in fs and r.random() < .3]
            cmds += [["check", c, w(), r.sample(fs + more, len(fs + more))], ["check", c, w(), [f for f in fs + more if r.random() < .85]]]
        cmds.append(["check", c, w(), []])
    r.shuffle(cmds)
    k.validate("ConceptS", exe, [cmds[i::8] for i in range(8)], "types with and without what each concept asks for", env=env, par=8, run_timeout=300, chunks=2)
