#!/usr/bin/env python3
"""Writes MANIFEST.json out of properties.jsonl and the table of claimed checks."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX="bounded exhaustive enumeration on the real code against an independent reference"
claims=json.load(open(V+"/mc/claims.json"))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"bash /verif/setup.sh","hooks":{"guard":"verif","enable":"no hook is committed in /repo; harness files are added by 'go build -overlay' at check time","source_commits":[]},"checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in claims:
        c=claims[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough",
            "evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":"no check built yet"})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
print(len(m["checks"]),"checks")
