#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from props.py (one entry per property).
A property is claimed iff checks/<id>.py exists; the others go under not_applicable with their reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
TECH = "TLA+ specification (TLC); edge-covering replay of its transitions into the code and TLC validation of recorded traces"
out, checks, na = [], [], []
seen = set()
for p in PROPS:
    assert p["id"] not in seen and len(p["title"]) <= 80, p["id"]
    seen.add(p["id"])
    out.append({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
                "why_tests_cant": " ".join(p["why"].split()),
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            **({"observe_at": p["observe"]} if "observe" in p else {}), "hook_needed": None}})
    if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                       "technique": p.get("technique", TECH), "level": p.get("level", "model_checking"),
                       "level_note": " ".join(p["note"].split())})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "its specification and driver are not built yet")})
for f in os.listdir(os.path.join(V, "checks")):
    if f.endswith(".py") and f[:-3] not in seen:
        print("no property text for", f)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
json.dump({"version": 1,
           "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "ECL_VERIF (reserved; no hook was needed, /repo carries none)", "enable": "nothing to enable: the checks observe the public interface only", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. KNOWN_FINDINGS lists the recorded and repaired defects."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for o in out: jsonschema.validate(o, s)
jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(out), "properties,", len(checks), "claimed,", len(na), "not")
