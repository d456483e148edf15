#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the property table below"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from importlib import util
spec = util.spec_from_file_location("table", os.path.join(V, "tools", "table.py"))
T = util.module_from_spec(spec)
spec.loader.exec_module(T)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in T.PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["all"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=[p["observe"]], hook_needed=False))) + "\n")
NA = {x["property"] for x in T.NOT_APPLICABLE}
checks = []
for p in T.PROPS:
    if p["id"] in NA:
        continue
    checks.append(dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=p.get("technique", T.TECH), level=p.get("level", "model_checking"),
                       level_note=p.get("note", T.NOTE)))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="FIMEX_VERIF", enable="not used: no hooks were needed", source_commits=[]),
         checks=checks, not_applicable=T.NOT_APPLICABLE)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
