"""Machinery shared by every check.

A check binds one TLA+ module (spec/<M>.tla) to the code of /repo in two directions:

  * model -> code : TLC enumerates every transition of a bounded instance (MC module) and checks
    the invariants; the transitions it prints are chained into command scripts covering every edge,
    a C++ driver built from /repo's current tree plays them, and each answer must be one the
    specification gives (`replay`).
  * code -> model : seeded random command scripts, much longer/wider than the bounded instance, are
    run through the driver, and TLC validates the recorded trace against the same module (`validate`).

A command is a JSON array ["op", args...]; an answer is a string.  The specification module defines
  Init0        the state after a reset
  Step(s, c)   the set of outcomes [s |-> next state, r |-> answer]
"""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EIGEN = "/usr/include/eigen3"


class Broken(Exception):
    """the check itself cannot work (exit 2)"""


def enc(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        # percent-encode what would break tokenising
        if x == "":
            return "%e"
        return "".join(ch if (33 <= ord(ch) < 127 and ch not in "%[],") else "%%%02x" % ord(ch) for ch in x)
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(enc(y) for y in x) + "]"
    raise Broken("cannot encode %r" % (x,))


def cmd_line(c):
    return " ".join(enc(x) for x in c)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.violations = []
        self.known_hits = {}
        self.states = self.transitions = self.traces = 0
        self.samples = {}
        self.sample_cases = []
        self.assumptions = []
        self.notes = []
        self.coverage = {}
        self.known = self._load_known()
        self.replay_dir = os.path.join(VERIF, "replays")
        self.limit_runs = 3

    # ------------------------------------------------------------------ known findings
    def _load_known(self):
        out = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    # ------------------------------------------------------------------ build
    def includes(self):
        inc = ["-I" + os.path.join(VERIF, "shim/include"), "-I" + os.path.join(VERIF, "drivers")]
        for d in sorted(os.listdir(REPO)):
            p = os.path.join(REPO, d, "include")
            if d.startswith("ecl_") and os.path.isdir(p):
                inc.append("-I" + p)
        return inc + ["-isystem", EIGEN]

    def build(self, name, sources, flags=(), libs=(), opt="-O1", san="address", out=None):
        """sources: list of paths relative to REPO (or absolute); drivers are in VERIF/drivers"""
        exe = os.path.join(self.work, out or name)
        f = ["-std=c++14", "-w", opt, "-g0", "-pthread"] + list(flags)
        if san:
            f += ["-fsanitize=" + san, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        inc = self.includes()
        srcs = [os.path.join(VERIF, "drivers", name + ".cpp")]
        for s in sources:
            p = s if os.path.isabs(s) else os.path.join(REPO, s)
            if "*" in p:
                import glob
                srcs += sorted(glob.glob(p))
            else:
                srcs.append(p)
        objdir = exe + ".o.d"
        os.makedirs(objdir, exist_ok=True)

        def one(i_s):
            i, s = i_s
            o = os.path.join(objdir, "%d.o" % i)
            r = subprocess.run(["g++"] + f + inc + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            return o, r, s
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(srcs)))
        for o, r, s in res:
            if r.returncode:
                raise Broken("compile of %s failed:\n%s" % (s, r.stdout[:3000]))
        r = subprocess.run(["g++"] + f + [o for o, _, _ in res] + ["-o", exe, "-lrt", "-pthread"] + list(libs),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken("link of %s failed:\n%s" % (name, r.stdout[:3000]))
        return exe

    def builds(self, specs):
        """specs: list of (name, sources, kwargs) built in parallel"""
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(self.build, n, s, **k) for n, s, k in specs]
            return [f.result() for f in fs]

    # ------------------------------------------------------------------ TLC
    def _tlc(self, d, module, workers, timeout, xmx="3g", extra=()):
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss16m", "-Djava.io.tmpdir=" + d, "-cp", JAVA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise Broken("TLC timed out on " + module)
        return r.returncode, r.stdout

    def _specdir(self, tag):
        d = os.path.join(self.work, "tlc-" + tag)
        shutil.copytree(os.path.join(VERIF, "spec"), d)
        return d

    def mc(self, module, body, cmds=None, invariants=(), constraint=None, emit=True, timeout=600,
           workers=1, init="Init0", properties=(), post="", tag=None):
        """Model check spec/<module>.tla with the command set `cmds` (a TLA+ expression over s).
        Returns the list of edges (f, c, r, t).  `body` is TLA+ text added to the MC module."""
        tag = tag or ("mc-%s-%d" % (module, len(self.notes)))
        d = self._specdir(tag)
        mod = "MC_" + module
        if constraint and not re.match(r"\w+$", constraint):
            body += "\nMConstraint == " + constraint
            constraint = "MConstraint"
        emit_tla = ' /\\ PrintT(ToJson([f |-> s, c |-> c, r |-> o.r, t |-> o.s]))' if emit else ""
        txt = """---- MODULE %s ----
EXTENDS %s, Json
VARIABLE s
%s
MCmds == %s
MInit == s = %s
MNext == \\E c \\in MCmds : \\E o \\in Step(s, c) : s' = o.s%s
MSpec == MInit /\\ [][MNext]_s
%s
====
""" % (mod, module, body, cmds, init, emit_tla, post)
        open(os.path.join(d, mod + ".tla"), "w").write(txt)
        cfg = ("SPECIFICATION MSpec\n" if properties else "INIT MInit\nNEXT MNext\n") + "CHECK_DEADLOCK FALSE\n"
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        for p in properties:
            cfg += "PROPERTY %s\n" % p
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        open(os.path.join(d, mod + ".cfg"), "w").write(cfg)
        rc, out = self._tlc(d, mod, workers if not emit else 1, timeout)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("model checking of %s failed (the specification, not the code):\n%s" % (module, out[-3000:]))
        edges = []
        for line in out.splitlines():
            if line.startswith('"{\\"'):
                e = json.loads(json.loads(line))
                edges.append((json.dumps(e["f"], sort_keys=True), e["c"], e["r"], json.dumps(e["t"], sort_keys=True)))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if m:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        if emit and not edges:
            raise Broken("no transitions explored for " + module)
        self.notes.append("%s: %s distinct states, %d transitions emitted" % (mod, m.group(2) if m else "?", len(edges)))
        shutil.rmtree(d, ignore_errors=True)
        # coverage per operation: every operation in the command set must have been exercised
        ops = {}
        for f, c, r, t in edges:
            ops[c[0]] = ops.get(c[0], 0) + 1
        for k, v in ops.items():
            self.coverage[k] = self.coverage.get(k, 0) + v
        return edges

    def mc_plain(self, module, cfg, timeout=600, workers=4, extra=()):
        """plain model checking of a stand-alone module with the given cfg text"""
        d = self._specdir("plain-%s-%d" % (module, len(self.notes)))
        open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        rc, out = self._tlc(d, module, workers, timeout, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("model checking of %s failed (the specification, not the code):\n%s" % (module, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states += int(m.group(2)); self.transitions += int(m.group(1))
            self.notes.append("%s: %s distinct states" % (module, m.group(2)))
        shutil.rmtree(d, ignore_errors=True)
        return out

    # ------------------------------------------------------------------ scripts from edges
    @staticmethod
    def cover(edges, maxlen=60, init=None):
        """edge-covering scripts for a (possibly nondeterministic) labelled graph whose (f,c) pairs are
        deterministic. Returns list of scripts; a script is a list of (cmd, expected answer)."""
        from collections import defaultdict, deque
        adj = defaultdict(list)
        allow = defaultdict(set)
        for f, c, r, t in edges:
            adj[f].append((c, r, t))
        if init is None:
            init = edges[0][0]
        det = {}
        for f, c, r, t in edges:
            k = (f, json.dumps(c))
            det.setdefault(k, set()).add((r, t))
        nd = [k for k, v in det.items() if len(v) > 1]
        if nd:
            raise Broken("cover() needs deterministic commands: %r" % (nd[0],))
        # BFS tree from init
        prev = {init: None}
        q = deque([init])
        while q:
            u = q.popleft()
            for c, r, t in adj.get(u, ()):
                if t not in prev:
                    prev[t] = (u, c, r)
                    q.append(t)
        todo = {u: list(reversed(v)) for u, v in adj.items()}
        # self loops first (popped from the end)
        for u, v in todo.items():
            v.sort(key=lambda e: e[2] == u)
        scripts = []
        order = list(prev.keys())
        oi = 0

        def path_to(u):
            p = []
            while prev[u] is not None:
                w, c, r = prev[u]
                p.append((c, r))
                u = w
            return list(reversed(p))
        while True:
            while oi < len(order) and not todo.get(order[oi]):
                oi += 1
            if oi >= len(order):
                break
            u = order[oi]
            sc = path_to(u)
            n = 0
            while n < maxlen and todo.get(u):
                c, r, t = todo[u].pop()
                sc.append((c, r))
                u = t
                n += 1
                if not todo.get(u):
                    # short BFS for another state with uncovered edges
                    seen = {u: None}
                    dq = deque([(u, 0)])
                    hit = None
                    while dq and hit is None:
                        x, dd = dq.popleft()
                        if todo.get(x):
                            hit = x
                            break
                        if dd >= 4 or len(seen) > 200:
                            continue
                        for c2, r2, t2 in adj.get(x, ()):
                            if t2 not in seen:
                                seen[t2] = (x, c2, r2)
                                dq.append((t2, dd + 1))
                    if hit is None:
                        break
                    back = []
                    x = hit
                    while seen[x] is not None:
                        w, c2, r2 = seen[x]
                        back.append((c2, r2))
                        x = w
                    sc += list(reversed(back))
                    n += len(back)
                    u = hit
            scripts.append(sc)
        return scripts

    def walks(self, edges, total, maxlen=60, init=None):
        """random walks through the graph, about `total` commands (orders of steps that an edge cover does not show)"""
        adj = {}
        for f, c, r, t in edges:
            adj.setdefault(f, ([], []))[0 if t != f else 1].append((c, r, t))
        init = edges[0][0] if init is None else init
        scripts, n = [], 0
        while n < total:
            u, sc = init, []
            while len(sc) < maxlen and u in adj:
                go, stay = adj[u]
                c, r, t = self.rng.choice(go if go and (not stay or self.rng.random() < .6) else stay)
                sc.append((c, r))
                u = t
            if not sc:
                break
            scripts.append(sc)
            n += len(sc)
        return scripts

    # ------------------------------------------------------------------ running the driver
    def run_driver(self, exe, scripts, timeout=90, env=None, args=(), reset="reset", chunk=None, par=6):
        """Run scripts (lists of commands) through the driver; returns for every script the list of answers
        (shorter than the script, ending with 'CRASH:...' or 'HANG', if the driver died)."""
        if not scripts:
            return []
        nch = min(par, max(1, len(scripts)))
        groups = [list(range(i, len(scripts), nch)) for i in range(nch)]
        out = [None] * len(scripts)

        def job(idx):
            todo = idx
            guard = 0
            while todo:
                lines = []
                for k in todo:
                    lines.append(reset)
                    lines += [cmd_line(c) for c in scripts[k]]
                e = dict(os.environ, MALLOC_PERTURB_="85")
                e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
                e["UBSAN_OPTIONS"] = "print_stacktrace=0"
                if env:
                    e.update(env)
                scratch = tempfile.mkdtemp(prefix="run-", dir=self.work)
                p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE, cwd=scratch, env=e, start_new_session=True)
                hang = False
                try:
                    so, se = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
                except subprocess.TimeoutExpired:
                    hang = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    so, se = p.communicate()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                ans = so.decode("latin-1").split("\n")
                if ans and ans[-1] == "":
                    ans.pop()
                shutil.rmtree(scratch, ignore_errors=True)
                pos = 0
                done = 0
                for n, k in enumerate(todo):
                    need = 1 + len(scripts[k])
                    got = ans[pos:pos + need]
                    pos += need
                    if len(got) == need:
                        out[k] = got[1:]
                        done += 1
                    else:
                        msg = se.decode("latin-1")
                        m = re.search(r"(runtime error: [^\n]*|AddressSanitizer: [^\n]*|ThreadSanitizer: [^\n]*|terminate called[^\n]*(\n[^\n]*)?|Assertion[^\n]*)", msg)
                        what = "HANG" if hang else "CRASH:rc=%d %s" % (p.returncode, m.group(1) if m else msg[-200:])
                        out[k] = got[1:] + [re.sub(r"0x[0-9a-f]+", "ADDR", what).replace("\n", " ")]
                        done += 1
                        break
                if done == 0:
                    raise Broken("driver made no progress")
                todo = todo[done:]
                guard += 1
                if guard > 60 or hang or p.returncode == -14:
                    # crashing on nearly every script: the remainder counts as not run
                    for k in todo:
                        out[k] = ["NOTRUN"]
                    break
        with ThreadPoolExecutor(nch) as ex:
            list(ex.map(job, groups))
        return out

    def enough(self):
        """a violation was shown and time has passed: what remains is not worth waiting for"""
        if self.violations and time.time() - self.t0 > 120:
            raise Broken("stopped after %d violation(s)" % len(self.violations))

    def replay(self, exe, edges, what, maxlen=60, init=None, known=None, timeout=90, env=None, args=(), limit=None,
               par=6, walk=None):
        """model -> code: play scripts covering every edge, then random walks; every answer must be the specification's."""
        scripts = self.cover(edges, maxlen, init)
        if limit and len(scripts) > limit:
            self.rng.shuffle(scripts)
            scripts = scripts[:limit]
        n = sum(len(s) for s in scripts)
        scripts += self.walks(edges, walk if walk is not None else min(max(n // 2, 1500), 60000 if self.thorough else 15000), min(maxlen, 60), init)
        return self.play(exe, scripts, what, known=known, timeout=timeout, env=env, args=args, par=par)

    def play(self, exe, scripts, what, known=None, timeout=90, env=None, args=(), par=6):
        """scripts of (cmd, expected); compares answers. expected may be a string or a set of strings"""
        self.enough()
        ans = self.run_driver(exe, [[c for c, _ in sc] for sc in scripts], timeout=timeout, env=env, args=args, par=par)
        self.traces += len(scripts)
        self.samples[what] = self.samples.get(what, 0) + sum(len(s) for s in scripts)
        bad = 0
        for sc, an in zip(scripts, ans):
            if an == ["NOTRUN"]:
                continue
            self.sample(what, [c for c, _ in sc], an)
            for j, (c, r) in enumerate(sc):
                a = an[j] if j < len(an) else "NOTHING"
                ok = (a in r) if isinstance(r, (set, frozenset)) else (a == r)
                if not ok:
                    key = known(sc[:j + 1], a) if known else None
                    if key and key in self.known:
                        self.known_hits[key] = self.known_hits.get(key, 0) + 1
                        break
                    bad += 1
                    # a report only if a second run repeats it
                    an2 = self.run_driver(exe, [[x for x, _ in sc]], timeout=timeout, env=env, args=args)[0]
                    a2 = an2[j] if j < len(an2) else "NOTHING"
                    ok2 = (a2 in r) if isinstance(r, (set, frozenset)) else (a2 == r)
                    if ok2:
                        self.notes.append("unrepeatable mismatch in %s at %s: %s" % (what, cmd_line(c), a))
                        break
                    self.violation(what, [x for x, _ in sc[:j + 1]], r, a)
                    break
            if bad >= 5 or (bad and time.time() - self.t0 > 240):
                break
        return bad == 0

    def validate(self, module, exe, scripts, what, invariants=(), timeout=600, env=None, args=(), chunks=4,
                 extra_defs="", reset_ok="ok", par=6, run_timeout=90, confirm=True):
        """code -> model: run scripts through the driver, have TLC accept or reject the recorded trace."""
        self.enough()
        ans = self.run_driver(exe, scripts, env=env, args=args, par=par, timeout=run_timeout)
        self.traces += len(scripts)
        self.samples[what] = self.samples.get(what, 0) + sum(len(s) for s in scripts)
        use = [k for k in range(len(scripts)) if ans[k] != ["NOTRUN"]]
        for k in use:
            self.sample(what, scripts[k], ans[k])
            for c in scripts[k]:
                self.coverage[c[0]] = self.coverage.get(c[0], 0) + 1
        for k in use:
            if ans[k] and (ans[k][-1].startswith("CRASH") or ans[k][-1] == "HANG"):
                a2 = self.run_driver(exe, [scripts[k]], env=env, args=args, timeout=run_timeout)[0]
                if a2 and (a2[-1].startswith("CRASH") or a2[-1] == "HANG"):
                    n = len(ans[k])
                    self.violation(what, scripts[k][:n], "an answer", ans[k][-1])
                    return False
        chunks = max(1, min(chunks, len(use)))
        groups = [use[i::chunks] for i in range(chunks)]

        def job(gi):
            g = groups[gi]
            out = []
            tries = 0
            while g and tries < 3:
                rej = self._tlc_trace(module, [(scripts[k], ans[k]) for k in g], "%s-%d-%d" % (re.sub(r"\W", "", what), gi, tries), invariants, timeout, extra_defs)
                if rej is None:
                    break
                n, j, allowed = rej
                out.append((g[n], j, allowed))
                g = g[n + 1:]
                tries += 1
            return out
        with ThreadPoolExecutor(chunks) as ex:
            res = [x for y in ex.map(job, range(chunks)) for x in y]
        ok = True
        for k, j, allowed in res[:5]:
            if confirm:
                a2 = self.run_driver(exe, [scripts[k]], env=env, args=args, timeout=run_timeout)[0]
                if a2[:j + 1] != ans[k][:j + 1]:
                    rej = self._tlc_trace(module, [(scripts[k], a2)], "again-%d" % k, invariants, timeout, extra_defs)
                    if rej is None:
                        self.notes.append("unrepeatable rejection in %s" % what)
                        continue
                    _, j, allowed = rej
                    ans[k] = a2
            ok = False
            self.violation(what, scripts[k][:j + 1], allowed, ans[k][j])
        return ok

    def _tlc_trace(self, module, runs, tag, invariants, timeout, extra_defs=""):
        d = self._specdir("tr-" + tag)
        mod = "T_" + module
        n = 0
        where = []
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            for k, (sc, an) in enumerate(runs):
                f.write(json.dumps({"c": ["reset"], "r": "ok"}) + "\n"); where.append((k, -1)); n += 1
                for j, c in enumerate(sc):
                    f.write(json.dumps({"c": c, "r": an[j]}) + "\n"); where.append((k, j)); n += 1
        open(os.path.join(d, mod + ".tla"), "w").write("""---- MODULE %s ----
EXTENDS %s, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES s, i
%s
TInit == s = Init0 /\\ i = 1
TNext ==
  /\\ i <= Len(Trace)
  /\\ i' = i + 1
  /\\ IF Trace[i].c[1] = "reset" THEN s' = Init0
     ELSE LET os == Step(s, Trace[i].c)
              ok == {o \\in os : o.r = Trace[i].r}
          IN IF ok = {} THEN PrintT(<<"REJECT", i, ToJson({o.r : o \\in os})>>) /\\ FALSE
             ELSE \\E o \\in ok : s' = o.s
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
""" % (mod, module, extra_defs))
        cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        open(os.path.join(d, mod + ".cfg"), "w").write(cfg)
        rc, out = self._tlc(d, mod, 1, timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states += int(m.group(2)); self.transitions += int(m.group(1))
        if rc == 0 and "No error has been found" in out:
            shutil.rmtree(d, ignore_errors=True)
            return None
        dm = re.search(r"The depth of the complete state graph search is (\d+)", out)
        rj = re.findall(r'<<"REJECT", (\d+), "(.*)">>', out)
        if rj and dm:
            # the furthest rejected line
            idx, al = max(rj, key=lambda x: int(x[0]))
            idx = int(idx) - 1
            if idx == int(dm.group(1)) - 1:
                al = al.replace('\\"', '"').replace("\\\\", "\\")
                k, j = where[idx]
                shutil.rmtree(d, ignore_errors=True)
                return k, j, al
        raise Broken("trace validation of %s could not be evaluated:\n%s" % (module, out[-3000:]))

    # ------------------------------------------------------------------ reporting
    def sample(self, what, cmds, ans):
        if sum(1 for x in self.sample_cases if x["part"] == what) < 2:
            self.sample_cases.append({"part": what, "commands": [cmd_line(c) for c in cmds[:12]], "answers": [str(a)[:120] for a in ans[:12]]})

    def violation(self, what, cmds, expected, got):
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "%s-%d.txt" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            f.write("property %s, %s\n# commands for the driver\nreset\n" % (self.pid, what))
            for c in cmds:
                f.write((cmd_line(c) if not isinstance(c, str) else c) + "\n")
            f.write("# the specification allows: %s\n# the code answered:        %s\n" % (sorted(expected) if isinstance(expected, (set, frozenset)) else expected, got))
        self.violations.append({"what": what, "at": cmd_line(cmds[-1]) if cmds and not isinstance(cmds[-1], str) else "", "expected": str(expected)[:300], "got": str(got)[:300], "replay": path})
        if len(self.violations) <= 5:
            print("  [%s] after %d commands, `%s`: specification allows %s, code answered %s" % (
                what, len(cmds), self.violations[-1]["at"][:200], str(expected)[:200], str(got)[:200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()

    def finish(self, level="model_checking"):
        for k, n in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s (%d times)" % (self.pid, self.known[k], n))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.sample_cases,
                         "commands_by_part": self.samples,
                         "commands_by_operation": self.coverage,
                         "notes": self.notes},
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
            "assumptions": self.assumptions,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s: %d states, %d transitions, %d behaviours (%d commands) bound to the code, %d violation(s), %.1f s" % (
            self.pid, self.states, self.transitions, self.traces, sum(self.samples.values()), len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
