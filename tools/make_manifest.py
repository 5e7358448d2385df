#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
import importlib.util
claims, na = {}, {}
cf = root + "/tools/claims.py"
if os.path.exists(cf):
    spec = importlib.util.spec_from_file_location("claims", cf); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    claims, na = m.CLAIMS, m.NA
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in claims:
        c = claims[i]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                           technique=c["technique"], level="other", level_note=c["note"]))
    else:
        nas.append(dict(property=i, reason=na.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=nas), open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nas), "n/a")
