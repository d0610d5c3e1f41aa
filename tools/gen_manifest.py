#!/usr/bin/env python3
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NA = {}
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]; m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, technique=c["technique"], level=c["level"], level_note=c["note"]))
    else: m["not_applicable"].append(dict(property=i, reason=NA.get(i, "The check is still under construction; nothing is claimed yet.")))
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
