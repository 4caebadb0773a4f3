#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist in checks/."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p + ".py")) and p in T:
        checks.append(dict(property=p, quick_cmd="bash run.sh %s quick" % p, thorough_cmd="bash run.sh %s thorough" % p,
                           technique=T[p][0], level="exploration", level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason=T.get("na", {}).get(p, "No check has been built for it yet.")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the monitors observe the public interface, wrapped pthread calls, sanitizer runtimes and subclassed worker threads."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
