#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/proptext.py and props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
from proptext import T
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(T):
        d = {"id": k}; d.update(T[k])
        assert len(d["title"]) <= 80, (k, len(d["title"]))
        f.write(json.dumps(d) + "\n")
checks = []
for k in sorted(PROPS):
    p = PROPS[k]
    checks.append({"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
na = [{"property": k, "reason": NOT_APPLICABLE.get(k, "check still under construction")} for k in sorted(T) if k not in PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "RP3D_VERIF_HOOKS", "enable": "harness builds 'fa' and 'da' compile /repo's sources with -DRP3D_VERIF_HOOKS (tools/vbuild.py)", "source_commits": ["ec40dcf"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(T), "properties,", len(checks), "checks")
