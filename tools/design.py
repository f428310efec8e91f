#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (between markers) from properties.jsonl, the checks, the last evidence and seeded/."""
import glob, json, os, re
V = "/verif"


def between(t, name, new):
    a = "<!-- %s -->" % name; b = "<!-- end %s -->" % name
    return t[:t.index(a) + len(a)] + "\n" + new + t[t.index(b):]


rows = "| id | property | specification | drivers | explored | states / behaviours / commands (quick) | s |\n|---|---|---|---|---|---|---|\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c = open("%s/checks/%s.py" % (V, i)).read()
    mods = sorted(set(re.findall(r'(?:k\.mc|k\.validate|k\.mc_plain)\(\s*"(\w+)"', c)) | {m for m in re.findall(r'"([A-Z]\w+)"', c) if os.path.exists("%s/spec/%s.tla" % (V, m))})
    drv = sorted({d for d in re.findall(r'\("(\w+)", [A-Z\[]', c) if os.path.exists("%s/drivers/%s.cpp" % (V, d))})
    e = {}
    try: e = json.load(open("%s/evidence/%s.json" % (V, i)))
    except OSError: pass
    cov = e.get("coverage", {}); n = sum(cov.get("commands_by_part", {}).values()) if cov else 0
    rows += "| %s | %s | %s | %s | %s | %s | %s |\n" % (i, p["title"], ", ".join(mods), ", ".join(drv), p["quantifier"]["text"], "%s / %s / %s" % (cov.get("states", ""), cov.get("traces_validated_against_impl", ""), n), round(e.get("wall_s", 0)))
seeds = "| change | property | needs | caught by |\n|---|---|---|---|\n"
caught = {}
try: caught = json.load(open(V + "/tools/caught.json"))
except OSError: pass
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    seeds += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], caught.get(i, "?"))
t = open(V + "/DESIGN.md").read()
t = between(t, "properties", rows); t = between(t, "seeded", seeds)
open(V + "/DESIGN.md", "w").write(t)
