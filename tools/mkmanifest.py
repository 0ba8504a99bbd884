#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="ZMC_HOOKS", enable="no hooks are needed: the checks compile /repo's sources unchanged as shared objects and interpose libc", source_commits=[]),
         checks=[], not_applicable=[], notes="Every check is ./check <property> <tier>; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
