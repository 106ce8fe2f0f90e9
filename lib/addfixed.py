#!/usr/bin/env python3
"""addfixed.py COMMIT WHAT PROP... : records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
commit, what, props = sys.argv[1], sys.argv[2], sys.argv[3:]
for q in props:
    e = {"property": q, "status": "fixed", "what": "fixed: property=%s %s %s" % (q, commit, what)}
    if e not in d: d.append(e)
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(e) for e in d) + "\n]\n")
