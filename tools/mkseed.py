#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)builds /verif/seeded/<ID> from tools/seeds/<ID>.py against /repo's HEAD and checks its demonstration on both trees."""
import sys,os,subprocess,shutil,json,tempfile,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
ids=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(V+'/tools/seeds/*.py'))
for i in ids:
    g={}; exec(open(V+'/tools/seeds/%s.py'%i).read(),g)
    d=V+'/seeded/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    wt=tempfile.mkdtemp(prefix='seed.')
    try:
        sh('git -C /repo archive HEAD include | tar x -C '+wt); sh('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm b',cwd=wt)
        for f,a,b in g['edits']:
            p=wt+'/include/nudb/'+f; s=open(p).read(); assert s.count(a)==1,(i,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
        open(d+'/patch.diff','w').write(sh('git diff',cwd=wt).stdout)
        open(d+'/demo.cpp','w').write(g['demo']); shutil.copy(V+'/tools/demo/'+g.get('sh','demo.sh'),d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
        if 'memfs.h' in g['demo']: shutil.copy(V+'/tools/demo/memfs.h',d)
        json.dump(dict(property=g['prop'],needs=g['needs'],what_it_breaks=g['breaks']),open(d+'/meta.json','w'),indent=1)
        ok=sh('bash %s/demo.sh'%d,cwd='/repo'); bad=sh('bash %s/demo.sh'%d,cwd=wt)
        print('%-26s %s clean %d patched %d %s'%(i,g['prop'],ok.returncode,bad.returncode,'OK' if ok.returncode==0 and bad.returncode in(1,66,124,134,139) else 'PROBLEM\n'+ok.stdout[-500:]+bad.stdout[-500:]),bad.stdout.strip()[-100:])
    finally: shutil.rmtree(wt)
