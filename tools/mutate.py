#!/usr/bin/env python3
"""Looks for gaps: small changes to the files a property is anchored in, each made in a scratch clone of /repo, that the
property's check does not notice.  Development only (no check uses this).
usage: mutate.py OUT N WORKERS [PID...]   (expects a copy of /verif in /tmp/mut/v, see DESIGN.md)"""
import json, os, random, re, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue, threading
V = "/tmp/mut/v"


def mask(t):
    """comments, texts and preprocessor lines blanked out"""
    out = list(t); i = 0
    def blank(a, b):
        for j in range(a, b):
            if out[j] != "\n": out[j] = " "
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', t, re.S): blank(m.start(), m.end())
    s = "".join(out); i = 0; cont = False
    for l in s.split("\n"):
        if cont or l.lstrip().startswith("#"): blank(i, i + len(l)); cont = l.rstrip().endswith("\\")
        i += len(l) + 1
    return "".join(out)


OPS = [(r"(?<![<>=!\-+*/&|^%])<(?![<=])", ["<="]), (r"(?<![<>=!\-])>(?![>=])", [">="]), (r"(?<!<)<=", ["<"]), (r"(?<!>)>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"(?<![+eE(=,<\[])\s*\+(?![+=])", [" -"]), (r"(?<=[\w)\]])\s*-(?![-=>])", [" +"]), (r"(?<=[\w)\]])\s*\*(?=\s*[\w(])(?!=)", [" /"]), (r"(?<=[\w)\]])\s*/(?!=)", [" *"]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"%", ["/"]), (r"(?<![&])&(?![&=])(?=\s*\w)", []),
       (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", ["+1", "-1"]), (r"(?<![\w.])(\d+\.\d*)(?![\w.])", ["F"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bbreak\s*;", [";"]), (r"\bcontinue\s*;", [";"]), (r"\bif\s*\(", ["NEG", "NEVER"]), (r"\bwhile\s*\(", ["NEVER"]), (r"\breturn\s+[^;{}]+;", ["NEGRET"]),
       (r"(?<=[;{}])\s*[\w:>.\-\[\]()*]+\s*(?:=(?!=)|\+=|-=|<<|\()[^;{}]*;", ["DEL"]), (r"\b(?:std::)?min\b", ["max"]), (r"\b(?:std::)?max\b(?!\s*\(\s*\))", ["min"])]


def close(t, i):
    n = 0
    for j in range(i, len(t)):
        if t[j] == "(": n += 1
        elif t[j] == ")":
            n -= 1
            if n == 0: return j
    return -1


def mutants(path, text):
    m = mask(text)
    for rx, subs in OPS:
        for g in re.finditer(rx, m):
            line = m.count("\n", 0, g.start() + len(g.group()) - len(g.group().lstrip())) + 1
            if g.group().strip() in ("<", ">", "<=", ">="):
                ls = m.rfind("\n", 0, g.start()) + 1; le = m.find("\n", g.start()); l = m[ls:le]; at = g.start() - ls
                if not re.search(r"\b(for|while|if|return|assert|else)\b|\?|_assert_|&&|\|\|", l) or re.search(r"\btemplate\b|\boperator\b|\btypename\b", l): continue
                if any(x.start() < at < x.end() for x in re.finditer(r"\w\s*<[\w:,\s*&]+>(?!=)", l)): continue
            if m[g.start():g.start() + 6].strip().startswith(("for ", "for(")) : continue
            for sub in subs:
                a, b = g.start(), g.end(); old = text[a:b]; new = sub
                if sub in ("+1", "-1"): new = str(int(old) + int(sub))
                elif sub == "F": new = repr(float(old) * 1.5 + .25)
                elif sub in ("NEG", "NEVER"):
                    e = close(m, b - 1)
                    if e < 0: continue
                    new = old + ("!(" + text[b:e] + "))" if sub == "NEG" else "false && (" + text[b:e] + "))"); b = e + 1
                elif sub == "NEGRET":
                    x = old[6:-1].strip()
                    if not re.search(r"[<>=!]=|&&|\|\||[^-<]>[^>]|<[^<]", x): continue
                    new = "return !(" + x + ");"
                elif sub == "DEL":
                    w = old.strip()
                    if w.startswith(("return", "typedef", "using", "template", "static", "const", "throw", "delete", "friend", "public", "private", "protected", "enum", "struct", "class")): continue
                    if re.match(r"[\w:]+(<[^;=]*>)?[\s*&]+\w+\s*(=|\(|;)", w): continue
                    a += len(old) - len(old.lstrip()); new = ";"
                yield dict(file=path, line=line, a=a, b=b, new=new, old=text[a:b])


def main():
    out, n, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    files = {}
    for p in props:
        files[p["id"]] = fs = []
        for a in p["anchors"]["files"]:
            q = "/repo/" + a
            if os.path.isdir(q): fs += [os.path.join(r, x)[6:] for r, _, xs in os.walk(q) for x in xs if x.endswith((".hpp", ".cpp", ".h", ".ipp"))]
            elif os.path.exists(q): fs.append(a)
            else: print("no such anchor", p["id"], a)
    rnd = random.Random(int(os.environ.get("MSEED", "1"))); jobs = []; seen = set()
    done = set()
    if os.path.exists(out):
        for l in open(out): d = json.loads(l); done.add((d["file"], d["a"], d["new"]))
    for p in props:
        if only and p["id"] not in only: continue
        ms = []
        for f in files[p["id"]]:
            if not f.endswith("macros.hpp"): ms += list(mutants(f, open("/repo/" + f).read()))
        rnd.shuffle(ms); lines = {}; pick = []
        for x in ms:
            k = (x["file"], x["line"]); key = (x["file"], x["a"], x["new"])
            if key in done or key in seen or lines.get(k, 0) >= 2: continue
            lines[k] = lines.get(k, 0) + 1; seen.add(key); x["pid"] = p["id"]; pick.append(x)
            if n and len(pick) >= n: break
        jobs += pick
        if n == 0: print(p["id"], len(files[p["id"]]), "files", len(ms), "mutants")
    if n == 0: return
    rnd.shuffle(jobs); print(len(jobs), "mutants"); sys.stdout.flush()
    ws = queue.Queue()
    for i in range(workers):
        c = "/tmp/mut/r%d" % i
        if not os.path.isdir(c): subprocess.check_call(["git", "clone", "-q", "/repo", c])
        subprocess.check_call("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD" % c, shell=True); ws.put(c)
    lock = threading.Lock(); f = open(out, "a")

    def check(c, pid):
        e = dict(os.environ, VERIF_REPO=c, VERIF_FIRST="1")
        p = subprocess.Popen(["python3", V + "/check.py", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True)
        try: o, _ = p.communicate(timeout=240); rc = p.returncode
        except subprocess.TimeoutExpired: o, rc = "", 99
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        if rc == 2 and ("compile of" in o or "link of" in o): rc = 3
        return rc, o

    def run(x):
        c = ws.get(); p = os.path.join(c, x["file"]); t = open(p).read()
        try:
            if t[x["a"]:x["b"]] != x["old"]: return
            open(p, "w").write(t[:x["a"]] + x["new"] + t[x["b"]:]); t0 = time.time()
            rc, o = check(c, x["pid"]); x["rc"] = rc; x["by"] = x["pid"]
            if rc in (0, 2, 99):
                for q in [q for q in files if q != x["pid"] and x["file"] in files[q]][:4]:
                    r2, _ = check(c, q)
                    if r2 == 1: x["rc"] = 1; x["by"] = q; break
                if x["rc"] in (2, 99): x["out"] = o[-300:]
            x["s"] = round(time.time() - t0, 1)
        finally:
            open(p, "w").write(t); ws.put(c)
        x["text"] = t.split("\n")[x["line"] - 1].strip()
        with lock: f.write(json.dumps(x) + "\n"); f.flush()
    with ThreadPoolExecutor(workers) as ex: list(ex.map(run, jobs))


main()
