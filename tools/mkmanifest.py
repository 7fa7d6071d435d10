#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/*.py and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]; f = os.path.join(V, "checks", i + ".py")
    if os.path.exists(f):
        s = open(f).read()
        t = re.search(r'^TECHNIQUE\s*=\s*"(.*)"', s, re.M); n = re.search(r'^NOTE\s*=\s*"(.*)"', s, re.M)
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
                       "technique": t.group(1) if t else "abstract interpretation (Frama-C Eva) of the sources in stated contexts",
                       "level": "other",
                       "level_note": n.group(1) if n else "sound value analysis of the current sources over the input sets written in ctx/%s.c; sizes and history lengths are bounded by those contexts" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
