#!/usr/bin/env python3
"""Write MANIFEST.json from vlib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.registry import CHECKS  # noqa: E402
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API of /repo only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p)
    if not c:
        m["not_applicable"].append({"property": p, "reason": "not built yet"})
        continue
    m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                        "technique": c["technique"], "level": "model_checking", "level_note": c["note"],
                        "evidence_file": f"evidence/{p}.json"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
