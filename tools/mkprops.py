#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and catalogue.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from catalogue import CHECKS, HARNESSES
from proptable import PROPS, NA
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=[p["observe"]]))) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    c = CHECKS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                       technique=p["tech"], level=c.get("level", "exploration"), level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=NA,
               notes="Every check builds its harness from /repo's working tree (sanitizers on), searches generated inputs against an independent oracle, shrinks a failure and writes it to replay/; 'python3 run.py <id> --replay <file>' replays it. Properties from C10 on run the real headers on a stand-in tensor library (/verif/standin), because the tensor library the project depends on is not installed."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
missing = [p["id"] for p in PROPS if p["id"] not in CHECKS and p["id"] not in [n["property"] for n in NA]]
print(len(PROPS), "properties,", len(checks), "checks; unclaimed:", missing)
