"""Driver: runs the jobs of one property, replays counterexamples on the real code, writes evidence."""
import os,sys,json,time,subprocess,glob,shutil,re,traceback
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF,REPO,BuildError
from concurrent.futures import ThreadPoolExecutor
class J:
    """one engine run: harness file h, entry e; q/t = bounds for the quick/thorough tier (t=None: same as q; q=None: thorough only)"""
    def __init__(s,h,e,q={},t=None,reach=(),defs=(),ov=(),opts=(),bounds='',optional=False,limit=None,internal=False,topt=False):
        s.h,s.e,s.q,s.t,s.reach,s.defs,s.ov,s.opts,s.bounds,s.optional,s.limit,s.internal,s.topt=h,e,q,t,tuple(reach),tuple(defs),tuple(ov),tuple(opts),bounds,optional,limit,internal,topt
def ncpu(): return max(1,min(8,os.cpu_count() or 1))
def add(tot,j):
    for k,v in j.items():
        if k=='solver_max_s': tot[k]=max(tot.get(k,0),v)
        elif isinstance(v,(int,float)): tot[k]=tot.get(k,0)+v
        elif isinstance(v,dict):
            d=tot.setdefault(k,{})
            for a,b in v.items(): d[a]=d.get(a,0)+b
        elif k=='functions': tot.setdefault(k,set()).update(v)
        elif k in('samples','violations'): tot.setdefault(k,[]).extend(v)
def native_run(nat,entry,inp,params,timeout=60,pre=()):
    try:
        p=subprocess.run(list(pre)+[nat,entry,inp]+['%s=%d'%kv for kv in params.items()],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,text=True,errors='replace',env=dict(os.environ,UBSAN_OPTIONS='print_stacktrace=1'))
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 'timeout',''
def confirm(v,nats,job,inp,params):
    """does the real code misbehave on this input?  returns (bool, output)"""
    nat=nats['asan']
    rc,o=native_run(nat,job.e,inp,params,timeout=30 if v['kind']=='hang' else 120)
    if v['kind']=='hang': return rc=='timeout' or rc in(1,99), 'native run: %s\n%s'%(rc,o)
    if v['kind']=='uninit':
        vg=nats['mk']('plain'); rc2,o2=native_run(vg,job.e,inp,params,timeout=300,pre=('valgrind','-q','--error-exitcode=98','--track-origins=no'))
        return rc2==98 or rc in(1,99),o2+o
    if v['kind']=='race':
        ts=nats['mk']('tsan'); rc2,o2=native_run(ts,job.e,inp,params,timeout=300); return tsan_race(o2),o2
    ok= rc==1 or rc==99 or rc=='timeout' or (isinstance(rc,int) and rc<0)
    return ok,'exit %s\n%s'%(rc,o)
def tsan_race(o):
    """does the ThreadSanitizer output hold a race between two accesses of the library (not of the harness)?"""
    for rep in o.split('WARNING: ThreadSanitizer: data race')[1:]:
        tops=[]
        for st in re.split(r'\n\s*\n',rep)[:4]:
            m=re.search(r'(?:Read|Write|read|write)[^\n]* of size',st)
            if not m: continue
            fr=[l for l in re.findall(r'#\d+ (.*)',st[m.start():])]
            fr=[f for f in fr if not re.match(r'(mem\w+|operator delete|free|malloc|operator new)\b',f) or 'hb_touch' in f]
            tops.append(fr[0] if fr else '')
        if len(tops)>=2 and all('/harness/' not in t or 'hb_touch' in t for t in tops[:2]): return True
    return False
def known_findings(prop):
    """committed list of genuine defects that were recorded instead of repaired: {(entry, message): what fails}"""
    d={}
    try:
        for l in open(os.path.join(VERIF,'known_findings.txt')):
            m=re.match(r'known: property=(\S+) entry=(\S+) check="([^"]*)" (.*)',l)
            if m and m.group(1)==prop: d[(m.group(2),m.group(3))]=m.group(4).strip()
    except OSError: pass
    return d
def main(prop,title,jobs,assumptions=(),level='model_checking'):
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1); T0=time.time()
    thorough= tier=='thorough'; total=float(os.environ.get('VERIF_BUDGET','840' if not thorough else '3600'))
    wd=os.path.join(build.BUILD,'w','%s.%d'%(prop,os.getpid())); shutil.rmtree(wd,ignore_errors=True); os.makedirs(wd)
    rpdir=os.path.join(VERIF,'replays',prop)
    rc=2; vio=0
    cov=dict(states=0,transitions=0,traces_validated_against_impl=0,samples=[],jobs=[],functions_encoded=[]); tot={}; notes=[]
    try:
        KF=known_findings(prop)
        eng=build.engine()
        todo=[]
        for j in jobs:
            p=j.t if thorough and j.t is not None else j.q
            if p is None: continue
            todo.append((j,dict(p)))
        builds={}
        for j,p in todo: builds.setdefault((j.h,j.defs,j.ov),None)
        def b(k):
            try: return build.harness(k[0],os.path.join(wd,'b%d'%list(builds).index(k)),k[1],k[2])
            except BuildError as e: return e
        with ThreadPoolExecutor(4) as ex:
            for k,r in zip(builds,ex.map(b,list(builds))): builds[k]=r
        tb=time.time()-T0
        errs=[]; ran=0
        for j,p in todo:
            br=builds[(j.h,j.defs,j.ov)]
            if isinstance(br,BuildError):
                if j.internal: notes.append('%s not run: its harness uses library internals that no longer compile'%j.e); print('NOTE: '+notes[-1]+'\n'+str(br)[-1500:]); continue
                errs.append('build of %s failed:\n%s'%(j.h,br)); continue
            bc,nat=br; out=os.path.join(wd,'o.%s.%d'%(j.e,len(cov['jobs']))); os.makedirs(out)
            left=total-(time.time()-T0)
            lim=min(left-10,j.limit or 1e9)
            if lim<5:
                if j.optional or (thorough and j.topt): notes.append('%s skipped: time'%j.e); continue
                errs.append('no time left for %s'%j.e); continue
            t1=time.time()
            cmd=[eng,bc,'-e',j.e,'-o',out,'-j',str(ncpu()),'-t','%d'%lim]+sum([['-p','%s=%d'%kv] for kv in p.items()],[])+list(j.opts)
            try: r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=lim+60)
            except subprocess.TimeoutExpired: errs.append('%s: engine did not stop'%j.e); continue
            jt={}
            for f in glob.glob(out+'/res.*.json'):
                try: add(jt,json.load(open(f)))
                except Exception as e: errs.append('%s: bad result %s'%(j.e,e))
            ran+=1
            V=jt.get('violations',[])
            desc=dict(entry=j.e,harness=j.h+'.cpp',params=p,bounds=j.bounds,seconds=round(time.time()-t1,1),paths=jt.get('paths',0),forks=jt.get('forks',0),instructions=jt.get('instrs',0),symbolic_branches=jt.get('branches_symbolic',0),assertions_checked=jt.get('checks',0),assertions_needing_solver_or_simplifier=jt.get('checks_symbolic',0),assertions_proved_by_solver=jt.get('checks_proved',0),queries=jt.get('queries',0),solver_calls=jt.get('z3',0),sat=jt.get('sat',0),unsat=jt.get('unsat',0),unknown=jt.get('unknown',0),decided_by_minisat=jt.get('minisat',0),cross_checked_with_z3=jt.get('cross_checked',0),solver_s=round(jt.get('solver_s',0),2),solver_max_s=round(jt.get('solver_max_s',0),2),paths_outside_bounds=jt.get('killed',0),incomplete=jt.get('incomplete',0),incomplete_reasons=jt.get('inc',{}),reached=jt.get('reach',{}))
            nats={'asan':nat}
            def mk(kind,j=j): return build.variant(j.h,os.path.join(wd,'v_'+kind+'_'+j.h),j.defs,j.ov,kind)
            nats['mk']=mk
            if r.returncode!=0 and not V: errs.append('%s: engine failed (%d): %s'%(j.e,r.returncode,r.stdout[-800:]))
            confirmed=False; seenkf=set()
            for n,v in enumerate(V[:6]):
                if v['kind']=='engine': errs.append('%s: %s\n%s'%(j.e,v['msg'],v['where'])); continue
                inp=os.path.join(out,'cex%d.txt'%n); open(inp,'w').write(v['inputs'])
                ok,o=confirm(v,nats,j,inp,p)
                if ok and (j.e,v['msg']) in KF:
                    if (j.e,v['msg']) not in seenkf: print('KNOWN-FINDING: property=%s %s'%(prop,KF[(j.e,v['msg'])]),flush=True); seenkf.add((j.e,v['msg'])); notes.append('known finding reproduced: '+KF[(j.e,v['msg'])])
                    continue
                if ok:
                    os.makedirs(rpdir,exist_ok=True); rp=os.path.join(rpdir,'%s.%d.txt'%(j.e,n))
                    shutil.copy(inp,rp); 
                    with open(rp[:-4]+'.info','w') as f: f.write('property %s\nentry %s (harness/%s.cpp) params %s\nkind %s\n%s\n\nsymbolic stack:\n%s\nreplay on the real code:\n%s\n\nreplay again: python3 lib/replay.py %s %s %s\n'%(prop,j.e,j.h,p,v['kind'],v['msg'],v['where'],o[-3000:],prop,j.e,os.path.relpath(rp,VERIF)))
                    print('%s: %s: %s\n%s%s'%(j.e,v['kind'],v['msg'],v['where'],o[-1500:]))
                    print('VIOLATION property=%s replay=%s'%(prop,os.path.relpath(rp,VERIF)),flush=True); confirmed=True; vio+=1; break
                errs.append('%s: counterexample did not reproduce on the real code: %s: %s\n%s\n%s'%(j.e,v['kind'],v['msg'],v['where'],o[-1500:]))
                try: os.makedirs(rpdir,exist_ok=True); shutil.copy(inp,os.path.join(rpdir,'unconfirmed.%s.%d.txt'%(j.e,n)))
                except OSError: pass
            # replay sampled paths on the real code and compare observations
            val=0; S=jt.get('samples',[]); step=max(1,len(S)//6)
            def vs(a):
                n,s=a; inp=os.path.join(out,'s%d.txt'%n); open(inp,'w').write(s['inputs']); c,o=native_run(nat,j.e,inp,p,120); obs=''.join(l[4:]+'\n' for l in o.splitlines() if l.startswith('OBS '))
                return c==0 and obs==s['obs'],(c,o[-500:],s['obs'][-200:])
            if not V:
                with ThreadPoolExecutor(ncpu()) as ex: R=list(ex.map(vs,list(enumerate(S[(seed-1)%step::step]))[:8]))
                for ok,why in R:
                    if ok: val+=1
                    else: errs.append('%s: the engine and the compiled code disagree on a sampled path: %r'%(j.e,why)); break
            desc['paths_replayed_on_real_code']=val
            if jt.get('incomplete',0) and not V:
                if j.optional or (thorough and j.topt): notes.append('%s stopped by its budget before covering its bounds (%s): counted as explored, not as exhausted'%(j.e,jt.get('inc')))
                else: errs.append('%s: not exhausted: %s'%(j.e,jt.get('inc')))
            if not V and not (jt.get('incomplete',0)):
                for lab in j.reach:
                    if not jt.get('reach',{}).get(lab): errs.append('%s: never reached "%s" (vacuous)'%(j.e,lab))
            cov['jobs'].append(desc); cov['traces_validated_against_impl']+=val
            for s in S[:1]: cov['samples'].append(dict(entry=j.e,inputs=s['inputs'][:1500],observed=s['obs'][:300]))
            jt.pop('samples',None); jt.pop('violations',None); add(tot,jt)
            shutil.rmtree(out,ignore_errors=True)
            if confirmed: break
        if vio: rc=1
        elif errs or not ran:
            for e in errs[:5]: print('ERROR: '+e)
            if not ran: print('ERROR: nothing could be run')
            rc=2
        else: rc=0
        cov.update(states=int(tot.get('paths',0)+tot.get('forks',0)),transitions=int(tot.get('branches_symbolic',0)+tot.get('checks',0)),paths=int(tot.get('paths',0)),instructions=int(tot.get('instrs',0)),queries=int(tot.get('queries',0)),solver_calls=int(tot.get('z3',0)),solver_seconds=round(tot.get('solver_s',0),2),build_seconds=round(tb,1),functions_encoded=sorted(tot.get('functions',())),exhaustive=not any(d['incomplete'] for d in cov['jobs']) and rc==0,rule='states = feasible symbolic paths plus forks; transitions = symbolic branch decisions plus assertions decided; every solver model re-evaluated before use',notes=notes,errors=[e[:400] for e in errs],solver='own bit-blaster + MiniSat for QF_BV, z3 4.8.12 for floating point, for what MiniSat does not finish and to cross-check a sample of MiniSat verdicts; engine: /verif/engine over LLVM 18 IR of /repo built in this run')
        for d in cov['jobs']: print('  %-22s %7d paths %9d queries %7.1fs  solver %6.1fs  replayed %d%s'%(d['entry'],d['paths'],d['queries'],d['seconds'],d['solver_s'],d['paths_replayed_on_real_code'],'  INCOMPLETE' if d['incomplete'] else ''))
    except BaseException as e:
        traceback.print_exc(); rc=2
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(wd,ignore_errors=True)
    evd=os.environ.get('VERIF_EVID',os.path.join(VERIF,'evidence')); os.makedirs(evd,exist_ok=True)
    if not cov['samples']: cov['samples']=['none']
    json.dump(dict(property=prop,tier='thorough' if thorough else 'quick',seed=seed,level=level,coverage=cov,assumptions=list(assumptions),wall_s=round(time.time()-T0,1),violations=vio),open(os.path.join(evd,prop+'.json'),'w'),indent=1)
    print('%s: %s (%s, %.1fs)'%(prop,{0:'held on everything explored',1:'VIOLATED',2:'NO ANSWER'}[rc],title,time.time()-T0))
    return rc
