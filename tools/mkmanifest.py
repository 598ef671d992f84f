#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/specs.py and properties.jsonl."""
import sys,os,json
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R+'/lib')
import specs
props=[json.loads(l) for l in open(R+'/properties.jsonl') if l.strip()]
T='symbolic execution of the LLVM IR compiled from /repo, SMT (bit-vector) queries decide every branch and assertion; counterexamples replayed natively'
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in specs.P:
        s=specs.P[i]
        c=dict(property=i,quick_cmd='python3 check.py '+i,technique=s.get('technique',T),level='model_checking',level_note='bounded: '+s['title']+'; the bounds of each engine run and what lies outside are in DESIGN.md and in the evidence file')
        if any(j.t is not None for j in s['jobs']): c['thorough_cmd']='VERIF_TIER=thorough python3 check.py '+i
        checks.append(c)
    else: na.append(dict(property=i,reason=specs.NA.get(i,'no check built yet')))
json.dump(dict(version=1,setup_cmd='make -s -j8 -C engine B=../build',checks=checks,not_applicable=na),open(R+'/MANIFEST.json','w'),indent=1); print(len(checks),'checks',len(na),'n/a')
