#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checker's registry and properties.jsonl."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
claimed = {}
for l in subprocess.check_output(["bin/wbnfcheck", "-list"], text=True).splitlines():
    i, t, c = l.split("\t")
    claimed[i] = (t, c)
NA = json.load(open("tools/not_applicable.json"))
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in claimed:
        t, c = claimed[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i}",
                       "technique": t, "level": "other", "level_note": c})
    else:
        na.append({"property": i, "reason": NA.get(i, "no sound static check was built for it")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
