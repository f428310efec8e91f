"""Declarations and command lines for the parser's specification (CmdLineS)."""
from vlib import *
FLAGS = "abcdxyz"
TYPES = ["int", "string", "double", "char"]


def tla(x):
    if isinstance(x, str):
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    return str(int(x))


def arg(kind, flag, name, req=0, dflt="", ty="string", td="text", allow=(), now=1, desc=None):
    if not dflt and kind in ("value", "uval"):
        dflt = {"int": "7", "double": "0.5", "char": "q", "string": "none"}[ty]
    if kind == "switch":
        dflt, ty = dflt or "0", "bool"
    if kind == "mswitch":
        dflt, ty = dflt or "0", "int"
    return ["arg", kind, flag, name, desc or "the " + name, req, dflt, ty, td, list(allow), now]


def bounded(k, decls, tokens, n, tag, delim=" ", helpver=0, full=0, doc=0):
    """model check every token list up to length n for one set of declarations and return the edges"""
    D = [["cmd", delim, helpver, "1.2", "A message", "prog"]] + [["docbook"]] * doc + decls
    body = "D == %s\nToks == %s\nPos == IF ~s.on THEN 0 ELSE Len(s.args) - s.nb + Len(s.xors) + (IF s.doc THEN 1 ELSE 0)\nInv == s.on => TRUE\n" % (
        tla(D), "{" + ", ".join(tla(t) for t in tokens) + "}")
    body += "Lists == UNION {[1..m -> Toks] : m \\in 0..%d}\n" % n
    body += "Sound == \\/ ~s.on \\/ Pos < Len(D) - 1 \\/ \\A q \\in Lists : LET p == Parse(s, q) IN Ended(p) /\\ Accepted(s, p)\n"
    cmds = "IF Pos < Len(D) - 1 \\/ ~s.on THEN {D[IF s.on THEN Pos + 2 ELSE 1]} ELSE {<<\"parse\", %d, q>> : q \\in Lists}" % full
    return k.mc("CmdLineS", body, cmds=cmds, invariants=["Sound"], tag=tag)


def word(rng, n=6, alpha="abcxyz019.-_=+ "):
    return "".join(rng.choice(alpha) for _ in range(rng.randrange(0, n + 1)))


def literal(rng, ty):
    """a well formed value of a type"""
    if ty == "int":
        return rng.choice(["%d", "%d", "+%d", "-%d", " %d", "00%d"]) % rng.choice([rng.randrange(10), rng.randrange(100000), rng.randrange(999999999), 2147483647])
    if ty == "double":
        return rng.choice(["%d", "-%d", "%d.5", "-%d.25", "%d.125", "0%d.50", "+%d.0", "%d."]) % rng.randrange(1, 900)
    if ty == "char":
        return rng.choice("abcxyz019-+.")
    return rng.choice([word(rng), "plain", "two words", "-dash", "a=b", "--", "x,y;z", "9"])


def broken(rng, ty):
    if ty == "int":
        return rng.choice(["", " ", "x", "5x", "5 6", "1.5", "-", "+-3", "--3", "2147483648", "-2147483649", "99999999999", "5 ", "0x10", "5-3", "1 2 3"])
    if ty == "double":
        return rng.choice(["", "x", "1.5x", "1 2", ".", "-.", "1.2.3", "-", "1.5 ", "--1", "."])
    if ty == "char":
        return rng.choice(["", "ab", "a b", " ", "xyz"])
    return word(rng)


def canon(ty, t):
    if ty == "int":
        return str(int(t))
    if ty == "double":
        return "%.10g" % float(t)
    if ty == "char":
        return t.strip()
    return t


def declare(rng, kinds, maxn=6, xor=.3, errors=.05):
    """random declarations; returns (commands, model of what was declared)"""
    cmds, ds = [], []
    used_f, used_n = {"h"}, {"help", "version", "ignore_rest"}
    n = rng.randrange(1, maxn + 1)
    unl_opt = False
    todo = [rng.choice(kinds) for _ in range(n)]
    todo.sort(key=lambda x: x[0] == "u")       # positional arguments anywhere would do; the last gives the usual shape
    if rng.random() < .3:
        rng.shuffle(todo)
    have_umulti = False
    for i, kd in enumerate(todo):
        f = rng.choice(FLAGS + " " * 2).strip()
        nm = rng.choice(["n", "name", "v", "value", "out"]) + str(i)
        if rng.random() < .05:
            nm += "_and_so_on" * rng.randrange(1, 12)
        if rng.random() < errors:
            f = rng.choice([f, "ab", "-", " ", "h", "a"])
            nm = rng.choice([nm, "bad-name", "two words", "help", "n0"])
        elif f in used_f:
            f = ""
        if kd[0] == "u":
            if have_umulti or unl_opt:
                if rng.random() >= errors:
                    continue
            f = ""
        ty = rng.choice(TYPES)
        req = int(rng.random() < .3)
        if kd == "uval" and not req:
            unl_opt = True
        have_umulti |= kd == "umulti"
        allow = []
        if kd in ("value", "multi", "uval", "umulti") and rng.random() < .25:
            allow = sorted({canon(ty, literal(rng, ty)) for _ in range(rng.randrange(1, 4))} - {""})
        dflt = ""
        if kd == "switch":
            dflt = rng.choice("0001")
        elif kd == "mswitch":
            dflt = str(rng.choice([0, 0, 2]))
        elif kd in ("value", "uval"):
            dflt = canon(ty, literal(rng, ty)) or "none"
            if dflt == "-0":
                dflt = "0"
        a = arg(kd, f, nm, req, dflt, ty, rng.choice(["text", "num", "some type"]), allow, 1, "about %d" % i + rng.choice(["", "", "", " and so on" * 9, ", which is what it is about" * 5 + "  "]))
        if kd in ("switch", "mswitch"):
            a[5] = 0
        cmds.append(a)
        ds.append(a)
        used_f.add(f)
        used_n.add(nm)
    return cmds, ds


def session(rng, kinds, errors=.05, bad=.15, xor=.3, full=0, parses=8, maxtok=5, delims=" ", helpver=None, doc=0):
    delim = rng.choice(delims)
    hv = rng.randrange(2) if helpver is None else helpver
    msg = rng.choice(["A message", "", "A much longer message about what this program is for, which has to be broken over lines, and then again over more of them, neatly."])
    if full and rng.random() < .7:
        msg = "".join(rng.choice(["word", "a", "longer-word", "some,thing", "x|y", "very" * rng.randrange(1, 25), "1"]) + rng.choice([" ", " ", " ", "  ", "   ", "\n", "\n\n", ", "]) for _ in range(rng.randrange(1, 40))) + rng.choice(["", " ", "     ", "end"])
    prog = rng.choice(["prog", "./a/path/to/some/program", "/a/path/that/goes/on/and/on/for/ever/so/long/that/no/line/could/hold/it/ever/again/program"])
    sc = [["other"]] * (rng.random() < .3) + [["cmd", delim, hv, rng.choice(["1.2", "none"]), msg, prog]]
    if doc:
        sc[-1][4:] = [msg.replace("a", "&").replace("x", "<") if rng.random() < .5 else msg, prog.replace("/a", "/<&>")]
        sc[-1][3] = rng.choice(["1.2", "<1&2>", "&amp;", "none"])
        sc.append(["docbook"])
    cmds, ds = declare(rng, kinds, errors=errors)
    if doc:
        for d in cmds:
            d[4] += rng.choice(["", "", " & < > <b>", " &lt;", " [x]", "&&", ">"])
    labelled = [d for d in ds if d[1] in ("switch", "value", "multi")]
    group = []
    # an exclusive group: declared first, not given to the parser at once
    if len(labelled) >= 2 and rng.random() < xor and errors == 0:
        group = rng.sample(labelled, rng.choice([2, 2, min(3, len(labelled))]))
        for d in group:
            d[10] = 0
            d[5] = rng.randrange(2) if d[1] != "switch" else 0
    for d in ds:
        if not group and errors == 0 and rng.random() < .2:
            d[10] = 0
    late = []
    for i, d in enumerate(cmds):
        sc.append(d)
        if d[10] == 0 and d not in group:
            if rng.random() < .5:
                sc.append(["add", i + 1])
            else:
                late.append(["add", i + 1])
    if group:
        sc.append(["xor", [cmds.index(d) + 1 for d in group]])
    sc += late
    for _ in range(parses):
        toks = []
        picks = list(ds)
        rng.shuffle(picks)
        chosen = None
        if group:
            chosen = rng.choice(group)
        for d in picks:
            if d in group and d is not chosen and rng.random() > .08:
                continue
            must = d[5] or d is chosen
            if not must and rng.random() < .45:
                continue
            if must and rng.random() < bad / 4:
                continue
            reps = 1
            if d[1] in ("multi", "umulti", "mswitch"):
                reps = rng.randrange(1, 4)
            elif rng.random() < bad / 5:
                reps = 2
            kd, f, nm, ty = d[1], d[2], d[3], d[7]
            for _ in range(reps):
                tag = "-" + f if f and rng.random() < .6 else "--" + nm
                if kd in ("switch", "mswitch"):
                    toks.append([tag])
                    continue
                if d[9] and rng.random() > bad:
                    v = rng.choice(d[9])
                else:
                    v = literal(rng, ty) if rng.random() > bad else broken(rng, ty)
                if kd[0] == "u":
                    toks.append([v])
                elif delim == " " and rng.random() < .8:
                    toks.append([tag, v] if rng.random() > bad / 6 else [tag])
                else:
                    toks.append([tag + delim + v] if rng.random() > bad / 4 else [tag, v])
        # combine neighbouring single letters
        sw = [d[2] for d in ds if d[1] in ("switch", "mswitch") and len(d[2]) == 1]
        if sw and rng.random() < .5:
            got = [t for t in toks if len(t) == 1 and len(t[0]) == 2 and t[0][0] == "-" and t[0][1] in sw]
            if len(got) > 1 and rng.random() < .8:
                toks = [t for t in toks if t not in got] + [["-" + "".join(t[0][1] for t in got)]]
            elif rng.random() < .3:
                toks.append(["-" + "".join(rng.choice(sw + (["q"] if rng.random() < bad else [])) for _ in range(rng.randrange(1, 4)))])
        rng.shuffle(toks)
        flat = [x for t in toks for x in t]
        if rng.random() < .12:
            flat.insert(rng.randrange(len(flat) + 1), rng.choice(["--", "--", "--ignore_rest"]))
        if rng.random() < bad:
            flat.insert(rng.randrange(len(flat) + 1), rng.choice(["stray", "-q", "--nosuch", "-", "", "-aq", "a*b", "--n0x", "x-y", "-x-y"]))
        if hv and rng.random() < (.4 if full else .05):
            flat.insert(rng.randrange(len(flat) + 1), rng.choice(["-h", "--help", "--version"]))
        if rng.random() < .25: sc.append(["earlier", rng.choice(" =:"), rng.choice([[], ["-a"], ["--"], ["--", "-a", "y"], ["-a", "--", "--alpha"]])])
        sc.append(["parse", full, flat[:14]])
    return sc
