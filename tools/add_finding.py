"""Add or replace an entry of known_findings.json: ID PROPERTY FAMILY MECHANISM WHAT"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
i, prop, fam, mech, what = sys.argv[1:6]
d["findings"] = [e for e in d["findings"] if e["id"] != i] + [{"id": i, "property": prop, "family": fam, "mechanism": mech, "what": what}]
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
