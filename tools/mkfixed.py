#!/usr/bin/env python3
"""known_findings.jsonl = findings.json (hand-written) + one 'fixed' line per fix: commit of /repo listed in FIXED."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H%x09%s"], text=True).splitlines()
rows = [json.loads(l) for l in open(os.path.join(V, "tools", "findings.jsonl")) if l.strip()] if os.path.exists(os.path.join(V, "tools", "findings.jsonl")) else []
pm = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
miss = []
for l in log:
    h, s = l.split("\t")
    if s.startswith("fix:"):
        t = s[4:].strip()
        pid = next((p for p, keys in pm.items() if any(k in t for k in keys)), None)
        if pid is None: miss.append(t)
        rows.append(dict(property=pid, status="fixed", commit=h, text="fixed: property=%s %s %s" % (pid, h[:10], t)))
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows), "entries; unmapped:", miss)
