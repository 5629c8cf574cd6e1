#!/usr/bin/env python3
"""Development helper: hx.py SRC "DEF DEF..." [engine options] [--subst NAME] runs one harness variant and prints a summary."""
import sys, os, json, shlex, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/vt")
import build
src, defs, rest = sys.argv[1], shlex.split(sys.argv[2]), sys.argv[3:]
sub = ()
if "--subst" in rest:
    i = rest.index("--subst"); import jobs; sub = eval(rest[i + 1], vars(jobs)); del rest[i:i + 2]
try:
    bc = build.harness(src, defs, sub)
except build.BuildError as e:
    print("BUILD", str(e)[:700]); sys.exit(2)
out = tempfile.mktemp(suffix=".json")
r = subprocess.run([build.engine(), bc, "--out", out] + rest, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
if not os.path.exists(out):
    print("NO REPORT", r.returncode, r.stdout.decode(errors="replace")[-600:]); sys.exit(2)
j = json.load(open(out)); os.unlink(out)
if "DBG" in defs: print(r.stdout.decode(errors="replace")[-60000:])
v = j.pop("violations"); j.pop("functions"); j.pop("samples", None)
print(r.returncode, {k: x for k, x in j.items() if x})
for x in v[:4]:
    print(x["kind"], x["msg"]); print(x["stack"][:900]); print(str(x["input"])[:700])
