#!/usr/bin/env python3
"""Summarise /verif/replays/<id>.json: the first rejected step of a trace for each kind of rejection"""
import json, sys, collections
d = json.load(open("/verif/replays/%s.json" % sys.argv[1]))
print("total", d["total"])
seen = collections.Counter(); first = set()
for v in d["violations"]:
    r = v["rejected"]; k = (r["op"], tuple(r["clauses"]))
    if r["id"] in first: continue
    first.add(r["id"])
    seen[k] += 1
    if seen[k] > 1 or len(seen) > int(sys.argv[2] if len(sys.argv) > 2 else 8): continue
    print(r)
    st = v["trace"]["steps"]
    print("   init", json.dumps(v["trace"]["init"])[:600])
    for x in st[max(0, r["step"] - 2): r["step"]]:
        print("   ", json.dumps(x)[:1500])
print(seen)
