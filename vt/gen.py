#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vt/props.py and vt/jobs.py."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vt")
import registry
NA = {}
with open(V + "/properties.jsonl", "w") as f:
    for k, p in registry.PROPS.items():
        f.write(json.dumps({"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
checks, na = [], []
for k, p in registry.PROPS.items():
    js = registry.jobs(k, "quick")
    if not js:
        na.append({"property": k, "reason": NA.get(k, "no check built yet")}); continue
    checks.append({"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k, "evidence_file": "evidence/%s.json" % k,
                   "technique": p["technique"], "level": "other",
                   "level_note": p["note"] or "Every path of the stated harnesses over the real bitcode is explored with symbolic inputs%s and each assertion, address and branch is decided for all values (Z3 or exact byte-domain evaluation, cross-checked); bounded by the stated operation counts and sizes, which the evidence file repeats per job. Outside: %s." % (", schedules" if "schedules" in p["over"] else "", p["outside"])})
json.dump({"version": 1, "setup_cmd": "python3 vt/build.py", "checks": checks, "not_applicable": na, "hooks": {"guard": "none", "enable": "no hooks: /repo is compiled as it is", "source_commits": []}}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
