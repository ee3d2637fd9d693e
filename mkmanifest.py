#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = json.load(open(os.path.join(here, 'claims.json')))
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "--cfg xi_verif", "enable": "RUSTFLAGS='--cfg xi_verif' (set by env.sh, used by every build in run.sh)",
               "source_commits": T.get("hook_commits", [])},
     "checks": [], "not_applicable": []}
for p in props:
    c = T["claims"].get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh %s" % p["id"], "thorough_cmd": "./run.sh %s" % p["id"],
                            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": T.get("na", {}).get(p["id"], "check not built yet")})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write("\n")
