#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=p.get("hook")))
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="go build -overlay (nothing is added to /repo)",
                    enable="check.py maps harness/** to /repo/zz_verif/** and harness/hooks/** into packages of /repo with go build -overlay; /repo has no hook commits",
                    source_commits=[]),
         checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA])
for p in PROPS:
    if p["id"] in dict(NA):
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                            thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=p["tech"],
                            level=p.get("level", "exploration"), level_note=p["note"]))
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
cfg = json.load(open(ROOT + "/checks.json"))
miss = [p["id"] for p in PROPS if p["id"] not in cfg["properties"]]
assert not miss, miss
print(len(PROPS), "properties,", len(m["checks"]), "checks")
