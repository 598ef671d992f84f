"""Builds: engine, harness bitcode (clang -> LLVM IR from /repo's current tree), native replay binaries (g++)."""
import os,subprocess,sys,re
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('NUDB_REPO','/repo')
BUILD=os.environ.get('VERIF_BUILD',os.path.join(VERIF,'build'))
LL='/usr/lib/llvm-18/bin/'
H=os.path.join(VERIF,'harness')
def sh(cmd,**k):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
    return p.returncode,p.stdout
def engine():
    os.makedirs(BUILD,exist_ok=True)
    rc,o=sh(['make','-s','-j8','-C',os.path.join(VERIF,'engine'),'B='+BUILD])
    if rc: raise RuntimeError('engine build failed\n'+o[-3000:])
    return os.path.join(BUILD,'engine')
def inc(defs): return (['-I'+H+'/stub'] if 'NO_STUB' not in defs else [])+['-I'+REPO+'/include','-I'+H]
COMMON=['-std=c++14','-include','stdexcept','-DBOOST_ENABLE_ASSERT_HANDLER','-U_FORTIFY_SOURCE']
class BuildError(Exception): pass
def run(c):
    rc,o=sh(c)
    if rc: raise BuildError(' '.join(c)+'\n'+o[-4000:])
    return o
class Jobs:
    def __init__(s): s.j=[]
    def start(s,c): s.j.append((c,subprocess.Popen(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')))
    def wait(s):
        bad=None
        for c,p in s.j:
            o=p.communicate()[0]
            if p.returncode and not bad: bad='compile failed: '+' '.join(c)+'\n'+o[-4000:]
        if bad: raise BuildError(bad)
def entries(name):
    src=open(os.path.join(H,name+'.cpp')).read(); e=re.findall(r'extern "C" void (h_\w+)\(\)',src)
    for i in re.findall(r'#include "(\w+\.h)"',src):
        p=os.path.join(H,i)
        if os.path.exists(p): e+=re.findall(r'extern "C" void (h_\w+)\(\)',open(p).read())
    return list(dict.fromkeys(e))
KIND={'asan':['-fsanitize=address,undefined','-fno-sanitize-recover=undefined','-fno-sanitize=vptr'],'plain':[],'tsan':['-fsanitize=thread']}
def native_start(J,name,wd,defs,ovs,kind):
    os.makedirs(wd,exist_ok=True)
    with open(wd+'/entries.inc','w') as f:
        for e in entries(name): f.write('ENTRY(%s)\n'%e)
    nat=['g++','-O0','-g1','-fno-inline','-w']+COMMON+['-D'+d for d in defs]+inc(defs)+['-I'+wd]; S=KIND[kind]
    J.start(nat+S+['-c',os.path.join(H,name+'.cpp'),'-o',wd+'/h.o']); J.start(nat+S+['-c',H+'/rt_native.cpp','-o',wd+'/rtn.o'])
    for o in ovs: J.start(nat+['-c',os.path.join(H,o+'.cpp'),'-o',wd+'/'+o+'.o'])
def native_finish(name,wd,ovs,kind):
    m=re.findall(r'[TW] model_(\S+)',run(['nm',wd+'/h.o']))
    with open(wd+'/redef','w') as f:
        for s in m:
            if s!='errno': f.write('%s model_%s\n'%(s,s))
    run(['objcopy','--redefine-syms='+wd+'/redef',wd+'/h.o'])
    run(['g++']+KIND[kind]+['-o',wd+'/native',wd+'/h.o',wd+'/rtn.o']+[wd+'/'+o+'.o' for o in ovs]+['-lpthread'])
    return wd+'/native'
def variant(name,wd,defs,ovs,kind):
    J=Jobs(); native_start(J,name,wd,defs,ovs,kind); J.wait(); return native_finish(name,wd,ovs,kind)
def harness(name,wd,defs=(),ovs=()):
    """compile harness/<name>.cpp; returns (bitcode for the engine, native replay binary)"""
    os.makedirs(wd,exist_ok=True); D=['-D'+d for d in defs]; J=Jobs()
    cl=[LL+'clang++','-O1','-Xclang','-disable-llvm-passes','-gline-tables-only','-fno-threadsafe-statics','-D_GLIBCXX_EXTERN_TEMPLATE=0','-emit-llvm','-c','-fno-builtin-memcmp','-Wno-everything']+COMMON+D+inc(defs)
    J.start(cl+[os.path.join(H,name+'.cpp'),'-o',wd+'/h.bc']); J.start(cl+[H+'/rt_engine.cpp','-o',wd+'/rt.bc'])
    for o in ovs: J.start(cl+[os.path.join(H,o+'.cpp'),'-o',wd+'/'+o+'.bc'])
    native_start(J,name,wd,defs,ovs,'asan'); J.wait()
    run([LL+'llvm-link','--suppress-warnings',wd+'/h.bc',wd+'/rt.bc']+sum([['--override',wd+'/'+o+'.bc'] for o in ovs],[])+['-o',wd+'/l.bc'])
    run([LL+'opt','-passes=default<O1>','-vectorize-loops=false','-vectorize-slp=false','-inline-threshold=60',wd+'/l.bc','-o',wd+'/p.bc'])
    return wd+'/p.bc',native_finish(name,wd,ovs,'asan')
