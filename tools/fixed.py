"""fixed.py ID PROP COMMIT WHAT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
i, prop, c, what = sys.argv[1:5]
d["findings"] = [f for f in d["findings"] if f["id"] != i] + [{"id": i, "property": prop, "status": "fixed", "line": "fixed: property=%s %s %s" % (prop, c, what)}]
json.dump(d, open(p, "w"), indent=1)
