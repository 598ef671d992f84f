#!/usr/bin/env python3
"""tryseed.py ID [PROP...]: run the check of the bug's property (or PROPs) against a scratch copy of /repo with the bug; -t thorough"""
import sys,os,subprocess,json,tempfile,shutil,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a=[x for x in sys.argv[1:] if x!='-t']; ids=[x for x in a if os.path.isdir(V+'/seeded/'+x)]; props=[x for x in a if x not in ids]
for i in ids:
    m=json.load(open(V+'/seeded/%s/meta.json'%i)); wt=tempfile.mkdtemp(prefix='try.')
    try:
        subprocess.run('git -C /repo archive HEAD include | tar x -C %s && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff'%(wt,wt,V,i),shell=True,check=True)
        for p in props or [m['property']]:
            t=time.time(); r=subprocess.run([sys.executable,V+'/check.py',p],env=dict(os.environ,NUDB_REPO=wt,VERIF_TIER='thorough' if '-t' in sys.argv else 'quick',VERIF_EVID='/tmp/evid'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith(('VIOLATION','ERROR','NOTE'))]
            print('%-26s %s exit %d %.0fs %s'%(i,p,r.returncode,time.time()-t,' | '.join(v)[:300]),flush=True)
            if r.returncode==1: print('    '+'\n    '.join(r.stdout.splitlines()[0:2])[:300])
    finally: shutil.rmtree(wt)
