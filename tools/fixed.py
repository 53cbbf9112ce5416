#!/usr/bin/env python3
"""KNOWN_FINDINGS.json: keeps "findings", regenerates "fixed" from the fix commits of /repo."""
import json, re, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("every failed write, seek", "C01"), ("failed writes of the listing", "C02"), ("failed reads", "C04"), ("exit status is nonzero", "C09"), ("interrupted assembly", "C11"), ("check allocations", "C05"), ("close_files() can't close", "C15"), ("lines of the built-in", "C14"), ("symbol dump", "C06"), ("AssembleFini() may", "C15"), ("Mach-O writer's tables", "C14"), ("options set by", "C08"), ("@ReservedStack", "C08"), ("weak externals", "C08")]
f = V + "/KNOWN_FINDINGS.json"
d = json.load(open(f)) if os.path.exists(f) else {"findings": []}
L = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.strip().split("\n")
d["fixed"] = []
for l in L:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    m = re.search(r"\((C\d\d)", s)
    c = m.group(1) if m else next((c for k, c in MAP if k in s), "C15")
    d["fixed"].append("fixed: property=%s %s %s" % (c, h, re.sub(r" *\(C\d\d.*\)$", "", s[5:])))
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
