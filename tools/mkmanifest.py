"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 setup.py",
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                                thorough_cmd="python3 check.py %s thorough" % i,
                                technique=c.get("technique", "property-based testing: generated inputs against a reference oracle, shrinking by choice sequence"),
                                level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check built yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
