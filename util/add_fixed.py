"""add_fixed.py PROPERTY COMMIT TEXT: records a repaired defect"""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
with open(p, "w") as fd:
    json.dump(d, fd, indent=1)
    fd.write("\n")
