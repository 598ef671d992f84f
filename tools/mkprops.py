#!/usr/bin/env python3
# Source of properties.jsonl: `python3 tools/mkprops.py > properties.jsonl`
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
I="include/nudb/"
exec(open(__file__.rsplit('/',1)[0]+'/props_body.py').read())
open(__file__.rsplit("/",2)[0]+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P)); print(len(P),"properties")
