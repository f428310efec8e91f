from vlib import *
SRC = ["ecl_filesystem/src/lib/*.cpp", "ecl_exceptions/src/lib/*.cpp", "ecl_errors/src/lib/*.cpp"]


def run(k):
    L = dict(flags=["-Wl,--wrap=realpath,--wrap=__realpath_chk"])
    dbg, rel = k.builds([("path", SRC, L), ("path", SRC, dict(flags=L["flags"] + ["-DNDEBUG"], opt="-O2", out="path_rel"))])
    edges = k.mc("PathS", "", cmds=r"""
  {<<"mkdir", <<"a">>>>, <<"mkdir", <<"a", "b">>>>, <<"touch", <<"f">>>>, <<"cd", <<"a">>>>, <<"cd", <<>>>>, <<"rm", <<"a", "b">>>>, <<"rm", <<"f">>>>, <<"rm", <<"l">>>>, <<"shut", <<"a">>, 1>>, <<"shut", <<"a">>, 0>>}
  \cup {<<"link", <<"l">>, b, t>> : b \in 0..1, t \in {<<"a">>, <<"f">>, <<"l">>, <<"a", "..", "f">>, <<"none">>}} \cup {<<"link", <<"a", "m">>, b, t>> : b \in 0..1, t \in {<<"b">>, <<"..", "l">>, <<".">>}}
  \cup {<<"sure", b, p, n>> : b \in 0..1, n \in 0..1, p \in {<<"">>, <<".">>, <<"a">>, <<"a", "">>, <<"", "f">>, <<"f", "">>, <<"f", "x">>, <<"l">>, <<"l", "b">>, <<"a", "b", "..", ".", "b">>, <<"..", "f">>, <<"m">>, <<"a", "m", "b">>, <<"long">>, <<"a", "long">>, <<"l", "..", "a">>}}
""", constraint="(TLCGet(\"level\") <= %d)" % (6 if k.thorough else 5))
    k.replay(dbg, edges, "paths in small trees", maxlen=400)
    k.validate("PathS", dbg, [[x for e in "EACCES EINVAL EIO ELOOP ENAMETOOLONG ENOENT ENOTDIR ENOMEM".split() for x in ([["fault", e], ["real", 1, ["."], 0], ["real", 1, ["."], 0]])]], "errors of the system", chunks=1)
    def above(e, t, at, parts, n=0):
        # would it leave the scratch tree?
        at = list(at)
        while parts:
            h, parts = parts[0], parts[1:]
            if h in ("", "."): continue
            if h == "..":
                if not at: return True
                at.pop(); continue
            q = tuple(at + [h])
            if q not in e or n > 40: return False
            if e[q] == "l": n += 1; at = [] if t[q][0] else at; parts = t[q][1] + parts
            elif e[q] == "f": return False
            else: at.append(h)
        return False
    r = k.rng; N = ["a", "b", "c", "d"]

    def script(n):
        s = []; e = {(): "d"}; cwd = (); tg = {}
        while len(s) < n:
            dirs = [p for p in e if e[p] == "d"]; x = r.choice(["mkdir", "mkdir", "touch", "link", "link", "rm", "cd", "shut"] + ["real"] * 12)
            part = lambda: r.choice(N * 4 + ["", ".", "..", "..", "long", "none"])
            if x in ("mkdir", "touch", "link"):
                p = r.choice(dirs) + (r.choice(N),)
                if p in e or len(p) > 5: continue
                e[p] = {"mkdir": "d", "touch": "f", "link": "l"}[x]
                if x == "link":
                    if r.random() < .6 and len(e) > 2: q = r.choice(list(e)); t = [1, list(q) or ["."]] if r.random() < .5 else [0, [".."] * (len(p) - 1) + list(q) or ["."]]
                    else: t = [r.randrange(2), [part() for _ in range(r.randrange(1, 4))]]
                    if t[1][0] == "": t[1][0] = "."
                    s.append([x, list(p)] + t); tg[p] = t
                else: s.append([x, list(p)])
            elif x == "rm":
                q = [p for p in e if p and p != cwd and not any(z != p and z[:len(p)] == p for z in e)]
                if q: p = r.choice(q); del e[p]; s.append([x, list(p)])
            elif x == "cd": cwd = r.choice(dirs); s.append([x, list(cwd)])
            elif x == "shut":
                q = [p for p in dirs if p]
                if q: s.append([x, list(r.choice(q)), r.randrange(2)])
            else:
                b = r.randrange(2); u = r.random()
                if u < .5: p = list(r.choice(list(e))); p = p[len(cwd):] if not b and tuple(p[:len(cwd)]) == cwd else p; p = [z for y in p for z in ([y] if r.random() < .8 else r.choice([[y, "."], ["", y], [y, "..", y], [".", y]]))] or ["."]
                else: p = [part() for _ in range(r.randrange(1, 6))]
                if u > .9: p = p + [""]
                if not b and len(p) > 1 and p[0] == "": p = ["."] + p
                if not above(e, tg, () if b else cwd, p): s.append([x, b, p, int(r.random() < .3)])
        return s
    n = 500 if k.thorough else 100
    for exe, w in ((dbg, ""), (rel, ", release build")):
        k.validate("PathS", exe, [script(60) for _ in range(n)], "random trees" + w, chunks=4)
