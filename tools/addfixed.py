"""python3 tools/addfixed.py PROPERTY COMMIT WHAT: record a repaired defect in known_findings.json"""
import json, sys
p = "known_findings.json"
d = json.load(open(p))
prop, commit, what = sys.argv[1:]
d["findings"].append({"property": prop, "status": "fixed", "commit": commit, "what": f"{what} (fixed: property={prop} {commit})"})
json.dump(d, open(p, "w"), indent=1)
