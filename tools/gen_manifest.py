import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from sa.registry import *
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py", "checks": [], "not_applicable": []}
for p in sorted(FAMILY):
    i = INFO[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": i["technique"], "level": "other", "level_note": i["note"]})
for p in sorted(NOT_APPLICABLE):
    if p not in FAMILY: m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
