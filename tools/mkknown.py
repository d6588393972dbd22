#!/usr/bin/env python3
"""Writes known_findings.json: recorded findings, and one 'fixed:' line per fix commit in /repo."""
import json, subprocess, os, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN=[dict(property='P10',status='known',replay='known/P10-dual.json',call_site='Validation.hpp: kfold, branch for dual classifiers',
 what='kfold and kkfold train a dual classifier on the test fold joined with the training folds (Validation.hpp, traintest_sample), so dual learners are validated on points they were trained on')]
PROPS=json.load(open(os.path.join(H,'tools','fixmap.json')))
fixed=[]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s','7ebc59f..HEAD'],text=True)
for l in log.splitlines():
    h,s=l.split('\t',1)
    if not s.startswith('fix:'): continue
    pr=[p for k,p in PROPS.items() if k in s]
    fixed.append('fixed: property=%s %s %s'%(pr[0] if pr else '?',h,s[4:].strip()))
    if not pr: print('no property for',s,file=sys.stderr)
json.dump(dict(findings=KNOWN,fixed=fixed),open(os.path.join(H,'known_findings.json'),'w'),indent=1)
