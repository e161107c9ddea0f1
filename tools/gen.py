#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "tools")]
from props import PROPS
from registry import REG
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
NOTE = "Runtime monitoring: real code of the current tree, compiled with sanitizers, driven by generated workloads and judged by an independent oracle; holds on everything explored, no guarantee beyond. Trusts the reference models in lib/ref.hpp and, where signatures are involved, the stand-in for the BLS library in lib/shim (the real one is not available offline)."
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="VERIF_MONITOR", enable="the checks compile /repo with -DVERIF_MONITOR; no source hooks are needed so far", source_commits=[]),
         checks=[], not_applicable=[])
for p in PROPS:
    i = p["id"]
    if i in REG:
        r = REG[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
                                technique=r["technique"], level=r.get("level", "exploration"), level_note=NOTE + (" " + r["note"] if "note" in r else "")))
    else:
        m["not_applicable"].append(dict(property=i, reason="not yet built"))
assert set(REG) <= {p["id"] for p in PROPS}, set(REG) - {p["id"] for p in PROPS}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in PROPS:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
        s = p["statement"]; assert len(p["title"]) <= 80, p["id"]
    print("valid", len(m["checks"]), "checks")
except ImportError:
    print("no jsonschema")
