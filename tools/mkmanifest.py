#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H)
from checks import CHECKS
from technique import TECH
NA={}
checks=[];na=[]
for l in open(os.path.join(H,'properties.jsonl')):
    p=json.loads(l)['id']
    if p in CHECKS and p in TECH:
        t,n=TECH[p]
        checks.append(dict(property=p,quick_cmd='python3 run.py %s quick'%p,thorough_cmd='python3 run.py %s thorough'%p,
            evidence_file='evidence/%s.json'%p,technique='property-based testing: '+t,level='exploration',level_note=n))
    else: na.append(dict(property=p,reason=NA.get(p,'check not built yet')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
print(len(checks),len(na))
