#!/usr/bin/env python3
"""addfix.py <props comma> <commit-subject-substring> <what failed>  -> appends fixed entries to known_findings.jsonl"""
import json, subprocess, sys
props, sub, what = sys.argv[1:4]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
m = [l.split()[0] for l in log if sub in l]
assert len(m) == 1, m
with open("/verif/known_findings.jsonl", "a") as f:
    for p in props.split(","):
        f.write(json.dumps({"property": p, "status": "fixed", "commit": m[0], "what": what, "line": f"fixed: property={p} {m[0]} {what}"}) + "\n")
