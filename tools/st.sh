#!/bin/bash
# runs the quick check of a property and lists its jobs
cd /verif; (time python3 check.py $1 --tier ${2:-quick}) 2>&1 | cut -c1-300 | grep -v "user\|sys" | head -40
python3 - <<P
import json
e=json.load(open('/verif/evidence/$1.json'))
def walk(o):
    if isinstance(o,dict):
        if 'job' in o:
            if 'paths' in o: print(o['job'],'' if o.get('exhaustive_within_bounds') else 'INCOMPLETE',o.get('paths'),o.get('wall_s'),o.get('z3_queries'))
            return
        for v in o.values(): walk(v)
    elif isinstance(o,list):
        for v in o: walk(v)
walk(e)
P
