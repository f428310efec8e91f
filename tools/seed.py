#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/<id>.py (edits + demo), confirming that the change builds, passes the
stable tests, and that the demonstration separates it from the unchanged tree; then runs the property's check on it.
usage: seed.py ID..."""
import json, os, shutil, subprocess, sys
V = "/verif"
SC = "/tmp/seedrepo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def load(i):
    ns = {}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), ns)
    return ns


DEMO = """#!/bin/bash
# exit 0: the property holds in this scenario; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
I=""; for d in "$PWD"/ecl_*/include; do I="$I -I$d"; done
g++ -std=c++14 -w -O1 -pthread %s -I"$D/shim" $I -isystem /usr/include/eigen3 "$D/demo.cpp" %s -o "$T/demo" -lrt || exit 9
cd "$T"
timeout %d ./demo
"""


def make(i):
    s = load(i)
    d = "%s/seeded/%s" % (V, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh("git -C /repo status --short --untracked-files=no").stdout.strip(), "/repo is dirty"
    try:
        for f, a, b in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            n = s.get("count", {}).get(a, 1)
            if t.count(a) != n:
                return "edit of %s: %d matches" % (f, t.count(a))
            open(p, "w").write(t.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        sh("git -C /repo checkout -- .")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(s["demo"])
    srcs = " ".join('"$D/../repo/%s"' % x if 0 else '"$OLDPWD/%s"' % x if 0 else x for x in s.get("srcs", []))
    srcs = " ".join("ecl_%s" % x if not x.startswith("ecl_") else x for x in srcs.split())
    open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), srcs, s.get("timeout", 60)))
    os.chmod(d + "/demo.sh", 0o755)
    if s.get("shim", True):
        shutil.copytree(V + "/shim/include", d + "/shim")
    r = sh("cd /repo && %s/demo.sh" % d)
    if r.returncode:
        return "demo fails on the unchanged tree: %d %s" % (r.returncode, r.stdout[-600:])
    try:
        if sh("git -C /repo apply %s/patch.diff" % d).returncode:
            return "patch does not apply"
        b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-out.json")
        ok = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", []))) if os.path.exists("/tmp/seed-out.json") else None
        res = json.load(open("/tmp/seed-out.json"))
        missing = [t for t in ok if t not in res["passed"]]
        if missing:
            return "tests fail with it: %s" % missing[:3]
        r = sh("cd /repo && %s/demo.sh" % d)
    finally:
        sh("git -C /repo checkout -- .")
    if r.returncode == 0:
        return "demo passes with the patch"
    if r.returncode == 9:
        return "demo does not compile with the patch"
    return "kept (demo: rc=%d %s)" % (r.returncode, r.stdout.strip()[-150:].replace("\n", " | "))


def detect(i, tier="quick", props=None):
    s = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    w = "%s-%s" % (SC, i)
    sh("rm -rf %s; mkdir -p %s; git -C /repo archive HEAD | tar x -C %s" % (w, w, w))
    a = sh("cd %s && patch -p1 < %s/seeded/%s/patch.diff" % (w, V, i))
    if a.returncode:
        return i, "PATCH DOES NOT APPLY", a.stdout
    out = []
    for p in props or [s["property"]]:
        r = sh("cd %s && VERIF_REPO=%s VERIF_TIER=%s VERIF_NOEV=1 timeout 900 python3 check.py %s" % (V, w, tier, p))
        out.append("%s:%s" % (p, {0: "missed", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode)))
        tail = r.stdout
    sh("rm -rf %s" % w)
    return i, " ".join(out), tail


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--detect" not in sys.argv:
        for i in ids:
            print(i, make(i))
    sh("bash /opt/vp/build.sh")
    with ThreadPoolExecutor(3) as ex:
        for i, r, t in ex.map(detect, [i for i in ids if os.path.exists("%s/seeded/%s/meta.json" % (V, i))]):
            if "caught" in r:
                cj = V + "/tools/caught.json"; d = json.load(open(cj)) if os.path.exists(cj) else {}
                d[i] = r.replace(":caught", ""); json.dump(d, open(cj, "w"), indent=0, sort_keys=True)
            print(i, r, "" if "caught" in r else t[-600:])
