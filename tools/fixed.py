#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT "what failed": records a repaired defect."""
import json, sys
p = "/verif/known-findings.json"; j = json.load(open(p)); L = next(v for v in j.values() if isinstance(v, list))
L.append({"status": "fixed", "property": sys.argv[1], "commit": sys.argv[2], "line": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
json.dump(j, open(p, "w"), indent=1); open(p, "a").write("\n")
