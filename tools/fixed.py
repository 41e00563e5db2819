"""tools/fixed.py PID COMMIT text: record a repaired defect"""
import json, sys
p = "known_findings.json"; d = json.load(open(p))
k = [k for k in d if k != "findings" and isinstance(d[k], list)][0]
d[k].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
