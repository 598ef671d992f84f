#!/usr/bin/env python3
"""Writes DESIGN.md from design_body.md, design_props.py, specs, known findings and planted bugs."""
import sys,os,json,glob,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[R+'/lib',R+'/tools']
import specs
from design_props import D
props={}
for l in open(R+'/properties.jsonl'):
    if l.strip():
        p=json.loads(l); props[p['id']]=p
def title(i): return props[i].get('title') or specs.P[i]['title']
o=[]
for i in sorted(props):
    t,orc,rest=D[i]
    o.append('### %s %s\n'%(i,title(i)))
    o.append(' '.join(t.split())+' Oracle: '+orc+'.'+(' Limits: '+rest+'.' if rest else ''))
    q=[]
    for j in specs.P[i]['jobs']:
        e='`'+j.e+'`'
        if e not in q: q.append(e)
    o.append('Entries: '+', '.join(q)+'.\n')
PROPS='\n\n'.join(o)
kf=[l.strip() for l in open(R+'/known_findings.txt')]
FIXED='\n'.join('* %s (`%s`): %s'%(m[1],m[2],m[3]) for m in (re.match(r'fixed: property=(\S+) (\S+) (.*)',l) for l in kf) if m)
KNOWN='\n'.join('* '+l[7:] for l in kf if l.startswith('known:'))
s=['| id | property | what it breaks | needs |','|---|---|---|---|']
for f in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(f)); s.append('| %s | %s | %s | %s |'%(f.split('/')[-2],m['property'],m['what_it_breaks'],m['needs']))
b=[]
def par(p): return '-' if p is None else (' '.join('%s=%s'%x for x in p.items()) or 'default')
for i in sorted(specs.P):
    b+=['','**%s**'%i,'','| entry | bounds | quick | thorough |','|---|---|---|---|']
    for j in specs.P[i]['jobs']:
        b.append('| %s/%s%s | %s | %s | %s |'%(j.h,j.e,' *int*' if j.internal else '',j.bounds or '',par(j.q),par(j.t)))
t=open(R+'/tools/design_body.md').read()
for k,v in dict(PROPS=PROPS,FIXED=FIXED,KNOWN=KNOWN,SEEDS='\n'.join(s),CAMPAIGN=open(R+'/tools/campaign.md').read().strip(),JOBS='\n'.join(b).strip()).items(): t=t.replace('@@%s@@'%k,v)
assert '@@' not in t
open(R+'/DESIGN.md','w').write(t); print(len(t.splitlines()),'lines')
