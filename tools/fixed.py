"""adds a repaired defect to known_findings.json: fixed.py <property> <commit> <what failed>"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3]))
json.dump(d, open(p, "w"), indent=1)
