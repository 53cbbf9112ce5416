#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_src.py and checks them against the schemas."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props_src import P, NA
seen = set()
with open(V + "/properties.jsonl", "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        assert x["id"] not in seen and len(x["title"]) <= 80, (x["id"], len(x["title"]))
        seen.add(x["id"])
        a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
        for g in x["files"]:
            assert os.path.exists("/repo/" + g), g
        if x["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]]
        if x["observe"]: a["observe_at"] = list(x["observe"])
        a["hook_needed"] = x["hook"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"], "anchors": a}) + "\n")
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[-1].startswith("hook:")]
M = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "UASM_SIM", "enable": "py/simlib.py builds a second image of /repo's working tree with -DUASM_SIM for the checks that need the hooks (C10); all other checks use the image without it", "source_commits": hooks},
     "checks": [], "not_applicable": [],
     "notes": "Every check builds uasm.exe from /repo's working tree with the project's own makefile into /verif/build and runs it in the simulator sim/sim.cpp. Replay a violation with python3 check.py --replay FILE."}
for x in sorted(P, key=lambda x: x["id"]):
    if "na" in x:
        M["not_applicable"].append({"property": x["id"], "reason": x["na"].strip()})
    else:
        M["checks"].append({"property": x["id"], "quick_cmd": "python3 check.py " + x["id"], "thorough_cmd": "python3 check.py %s --thorough" % x["id"], "technique": x["technique"], "level": "exploration", "level_note": x["level_note"].strip()})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
print("ok", len(P), len(M["checks"]))
