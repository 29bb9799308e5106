#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in tools/checks is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "tools", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="python3 tools/check.py %s --thorough" % i,
                           technique=NOTES[i][0], level="model_checking", level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason="No check built yet."))
m = dict(version=1, setup_cmd="bash tools/setup.sh", hooks=dict(guard="BEDROCK_VERIF_HOOKS", enable="no hooks are needed: the drivers link the unmodified sources and observe them through public interfaces, the network and linker wraps", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
