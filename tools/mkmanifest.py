#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and tools/claims.json."""
import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
claims=json.load(open("/verif/tools/claims.json"))
checks=[];na=[]
for p in props:
    c=claims.get(p["id"])
    if c and c.get("claimed"):
        checks.append(dict(property=p["id"],quick_cmd=f"./check.sh {p['id']} quick",thorough_cmd=f"./check.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",technique=c["technique"],level=c["level"],level_note=c["note"]))
    else:
        na.append(dict(property=p["id"],reason=(c or {}).get("reason","not yet built: the contracts for this property are still being written")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na)
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks),"claimed",len(na),"not")
