"""What decides each property: the engine runs, their bounds per tier and the assumptions."""
from run import J
ENV=['single translation unit compiled by clang 18 at -O1 to LLVM IR; the verdict is about that IR','heap allocation never fails; allocations of 4 GB or more are outside the claim','libstdc++ red-black tree, hash policy and boost::assertion_failed are replaced by models with the documented behaviour (harness/rt_engine.cpp)']
DB=ENV+['POSIX calls are served by the file model of harness/env.h (full transfers unless faults are on)','the hash function is an arbitrary function of the key: one free 64-bit value per key and salt','value bytes are free; key bytes are fixed and distinct','std::mutex, shared_mutex, condition variables, threads and the clock are models (harness/env.h); flushes happen where the harness calls context::flush, not on a timer']
CRASH=DB+['crash model: appends to the data and log file persist as an ordered prefix, possibly torn inside the last write; unsynced key-file overwrites persist or not independently, torn at any byte; directory operations are durable in order when they return; fsync makes everything of that file durable','nudb::detail::bulk_writer buffer sizes are lowered through harness/small_blocks.cpp (block_size() of a path = 64) so that several flushes happen inside the bound']
SB=('small_blocks',)
MI=('--max-instr','1000000000')
def wide(e='h_wide',ni=3): return J('wide',e,dict(ni=ni),dict(ni=4),['wide' if e=='h_wide' else 'wide tools'],opts=MI,bounds='key sizes 1 to 65535, block sizes 104 to 65535, value sizes 1 to 131071 from a table; free hash and value bytes')
HB='data file of any size up to 2^47 (free size of a hole inside a record), key files of 10 shapes with up to 2^32 buckets'
def huge(): return J('huge','h_huge',dict(nt=1,ni=2,nk=3),dict(nt=2),['huge','split','2^31 buckets'],ov=SB,opts=MI,bounds=HB+'; ni inserts into buckets that split, free high hash bits')
def hugespill(): return J('huge','h_huge',dict(eq=1,nk=8,ni=7,nt=1,ncfg=3),dict(eq=1,nk=13,ni=12,nt=1,ncfg=3),['huge','split'],ov=SB,opts=MI,bounds=HB+' (three shapes); equal hashes: spill records at large offsets')
def hugecrash(): return J('huge','h_huge_crash',dict(nt=1,nb=0),dict(nt=1,nb=1),['crash','kept','rolled back'],ov=SB,opts=MI,bounds=HB+'; a commit stopped before any file operation, then recovery',topt=True)
def hugerekey(): return J('huge','h_huge_rekey_log',{},{},['rekey log'],ov=SB,opts=MI,bounds=HB+'; recovery from the log of an interrupted rekey')
TB='two buckets of colliding hashes, both with spill records and splits'
def two(**k): return J('db','h_batch',dict(nk=16,ni=15,hmode=6,maxfl=2,mid=2,lf=50,**k),dict(nk=16,ni=15,hmode=6,maxfl=4,mid=2,lf=50,**k),['batch','spill and split'],bounds=TB)
MB='hundreds to thousands of items in few buckets (fixed hashes except where freehash=1: the hash bits that do not choose the bucket are free), free value bytes; then verify, visit and rekey'
def many(): return [
 J('many','h_many',dict(ni=300,nk=302),dict(ni=450,nk=452),['many','split'],opts=MI,bounds=MB+'; 300 equal hashes in one bucket'),
 J('many','h_many',dict(ni=600,nk=602,groups=5,bs=1000,nbs=65535,every=97),dict(ni=900,nk=902,groups=5,bs=1000,nbs=65535,every=97),['many','spill','split'],opts=MI,bounds=MB+'; groups of 120 equal hashes, spills'),
 J('many','h_many',dict(ni=1500,nk=1502,groups=100,bs=4096,lf=20,nlf=70,nbs=400,every=200,step=10,freehash=0,fast=0),dict(ni=4000,nk=4002,groups=400,bs=4096,lf=20,nlf=70,nbs=400,every=200,step=10,freehash=0,fast=0),['many','split'],opts=MI,bounds=MB+'; many buckets')]
def manybig(): return J('many','h_many',dict(ni=3700,nk=3702,groups=3700,bs=65535,lf=99,nlf=99,nbs=65535,every=3000,step=500,freehash=0,shift=18),dict(ni=4000,nk=4002,groups=4000,bs=65535,lf=99,nlf=99,nbs=32000,every=1000,step=500,freehash=0,shift=18),['many','spill','split'],opts=MI,bounds=MB+'; a full bucket and a spill record of 64 KB')
P={}
P['C01']=dict(title='insert/fetch round trip',assume=DB,jobs=[
 *many(),
 two(),
 hugespill(),
 huge(),
 J('conc','h_fetch_flush',dict(lf=20,np=3,committed=2,budget=1),dict(lf=20,np=3,committed=2,budget=2),['done','found','absent'],bounds='fetches while a commit is under way',topt=True),
 J('db','h_batch',dict(nk=16,ni=15,hmode=2,bs=400,maxfl=1,mid=2,lf=20),dict(nk=16,ni=15,hmode=2,bs=400,maxfl=2,mid=2,lf=20),['batch','split'],bounds='many equal hashes in one bucket'),
 wide(),
 J('db','h_history',dict(nk=3,steps=5),dict(nk=3,steps=6),['history'],bounds='every sequence of `steps` operations insert(any of nk keys)/flush/close+reopen, arbitrary 48-bit hashes'),
 J('db','h_batch',dict(nk=7,ni=6,hmode=1,hb=1,maxfl=1,mid=2),dict(nk=7,ni=6,hmode=1,hb=2,maxfl=2,mid=2),['batch','split'],bounds='ni inserts in order, up to maxfl flushes anywhere, hash bits that choose the bucket free'),
 J('db','h_batch',dict(nk=7,ni=7,hmode=3,hb=1,lf=90,maxfl=1,mid=2),dict(nk=9,ni=9,hmode=3,hb=1,lf=90,maxfl=2,mid=2),['batch','spill and split'],bounds='groups of colliding hashes: spills and splits'),
 J('db','h_batch',dict(nk=13,ni=12,hmode=2,maxfl=1,lf=90,mid=2),dict(nk=16,ni=15,hmode=2,maxfl=2,lf=90,mid=2),['batch','spill'],bounds='all hashes equal: chains of spills'),
 J('db','h_batch',dict(nk=6,ni=5,hmode=3,hb=1,maxfl=2,bigval=40,mid=2),dict(nk=6,ni=5,hmode=3,hb=1,maxfl=2,bigval=60,mid=2),['batch'],bounds='larger values')])
P['C02']=dict(title='duplicate keys are refused',assume=DB,jobs=[
 *many(),
 two(),
 hugespill(),
 huge(),
 J('conc','h_insert_insert',dict(lf=20,budget=1),dict(lf=20,budget=2),['done','loser'],bounds='inserts of equal keys while a commit is under way',topt=True),
 J('db','h_batch',dict(nk=16,ni=15,hmode=2,bs=400,maxfl=1,mid=2,lf=20),dict(nk=16,ni=15,hmode=2,bs=400,maxfl=2,mid=2,lf=20),['batch','split'],bounds='many equal hashes in one bucket'),
 wide(),
 J('db','h_history',dict(nk=3,steps=5),dict(nk=3,steps=6),['history'],bounds='every sequence of `steps` operations insert(any of nk keys)/flush/close+reopen, arbitrary 48-bit hashes'),
 J('db','h_batch',dict(nk=8,ni=7,hmode=2,mid=2),dict(nk=13,ni=12,hmode=2,mid=2,maxfl=2),['batch','spill'],bounds='every earlier key inserted again after each flush and after reopen, all hashes equal (spill chains)'),
 J('db','h_batch',dict(nk=5,ni=5,hmode=3,hb=2,lf=50,maxfl=2,mid=2),dict(nk=7,ni=7,hmode=3,hb=2,lf=50,maxfl=2,mid=2),['batch','split'],bounds='colliding groups across splits')])
P['C03']=dict(title='crash atomicity',assume=CRASH,jobs=[
 J('crash','h_crash',dict(nb=7,nn=6,hmode=6,lf=60),dict(nb=7,nn=6,hmode=6,lf=60,every=2),['crash','kept','rolled back'],ov=SB,bounds=TB,topt=True),
 hugecrash(),
 J('crash','h_crash',dict(nb=1,nn=2),dict(nb=2,nn=3,hmode=5,hb=1),['crash','kept','rolled back','during commit'],ov=SB,bounds='nb committed items, nn more, crash before any file operation of open/insert/close, any torn or lost unsynced write',topt=True),
 J('crash','h_crash',dict(nb=1,nn=2,every=1),dict(nb=1,nn=3,every=1,hmode=5,hb=1),['crash','kept','rolled back','during commit'],ov=SB,bounds='the same with a commit after each insert',topt=True),
 J('crash','h_created',dict(nn=3,every=1,hmode=5,hb=1),dict(nn=3,hmode=5,hb=1),['crash','used','unused'],ov=SB,bounds='the first use of a freshly created database',topt=True),
 J('crash','h_crash',dict(nb=4,nn=4,hmode=2,lf=90),dict(nb=4,nn=5,hmode=2,lf=90,every=2),['crash','kept','rolled back'],ov=SB,bounds='equal hashes: commit writes a spill record',topt=True),
 J('crash','h_crash',dict(nb=7,nn=4,hmode=2),dict(nb=7,nn=4,hmode=2,every=2),['crash','kept','rolled back'],ov=SB,bounds='spill chain and splits',topt=True)])
P['C04']=dict(title='recovery can be interrupted',assume=CRASH,jobs=[
 J('faults','h_fault_recover',None,dict(nb=7,nn=6,hmode=6,lf=60),['fault'],ov=SB,bounds=TB,topt=True),
 J('crash','h_crash_recover',dict(nb=7,nn=6,hmode=6,lf=60),dict(nb=7,nn=6,hmode=6,lf=60,every=2),['crash','recovery interrupted'],ov=SB,bounds=TB,topt=True),
 hugerekey(),
 J('crash','h_crash_recover',dict(nb=1,nn=2),dict(nb=1,nn=2,every=1),['crash','recovery interrupted'],ov=SB,bounds='crash, then a second crash before any file operation of recovery, then recovery',topt=True),
 J('crash','h_crash_recover',dict(nb=4,nn=2,hmode=2,lf=90),dict(nb=4,nn=4,hmode=2,lf=90),['crash','recovery interrupted'],ov=SB,bounds='with a spill record',topt=True),
 J('crash','h_crash_recover',None,dict(nb=1,nn=2,again=2),['crash','recovery interrupted'],ov=SB,bounds='two interrupted recoveries',topt=True),
 J('faults','h_fault_recover',dict(nb=1,nn=2),dict(nb=1,nn=2,every=1),['fault','recovery failed','past the last operation'],ov=SB,bounds='crash, then any file operation of recovery fails, then recovery is repeated',topt=True)])
P['C05']=dict(title='I/O failures',assume=CRASH,jobs=[
 J('conc','h_fault_flush',dict(lf=20,np=3,committed=2,budget=1,who=1),dict(lf=20,np=6,committed=5,budget=1,who=1),['fault','insert failed','fetch failed','past the last operation'],bounds='an insert and a fetch of one thread, a file operation of which fails, beside a commit',topt=True),
 J('conc','h_fault_flush',dict(lf=20,np=3,committed=2,budget=1,who=2,limit=60),dict(lf=20,np=3,committed=2,budget=2,who=0,limit=60),['fault','commit failed','insert failed','fetch failed','past the last operation'],bounds='a commit that fails while another thread inserts and fetches',topt=True),
 J('faults','h_fault',dict(nb=7,nn=6,hmode=6,lf=60,every=2),dict(nb=7,nn=6,hmode=6,lf=60,every=1),['fault','commit failed','past the last operation'],ov=SB,bounds=TB,topt=True),
 J('faults','h_fault',dict(nb=1,nn=2),dict(nb=1,nn=2),['fault','kept','rolled back','open failed','close failed','past the last operation'],ov=SB,bounds='one failing file operation, or every operation from one on, or a failing write that first transfers any number of bytes; anywhere in open/insert/fetch/close',topt=True),
 J('faults','h_fault',dict(nb=1,nn=2,every=1),dict(nb=1,nn=3,every=1,hmode=5,hb=1),['fault','commit failed','past the last operation'],ov=SB,bounds='the same with a commit after each insert',topt=True),
 J('faults','h_fault',dict(nb=4,nn=4,hmode=2,lf=90,every=2),dict(nb=4,nn=4,hmode=2,lf=90,every=1),['fault','commit failed','past the last operation'],ov=SB,bounds='with spill records',topt=True),
 J('faults','h_fault',None,dict(nb=4,nn=4,hmode=1,hb=1,every=4),['fault','past the last operation'],ov=SB,bounds='with splits',topt=True)])
P['C06']=dict(title='data file is append-only',assume=CRASH,jobs=[
 two(),
 hugecrash(),
 J('db','h_history',dict(nk=3,steps=4),dict(nk=3,steps=6),['history'],bounds='every write, truncation or removal of the data file below its committed size is a violation'),
 J('db','h_batch',dict(nk=7,ni=7,hmode=3,hb=1,lf=90,maxfl=1),dict(nk=9,ni=9,hmode=3,hb=1,lf=90,maxfl=2),['batch','spill and split'],bounds='with spills and splits'),
 J('crash','h_crash',dict(nb=4,nn=4,hmode=2,lf=90),dict(nb=2,nn=3,hmode=5,hb=1),['crash'],ov=SB,bounds='committed prefix compared after a crash and recovery',topt=True),
 J('rekey','h_rekey',dict(ni=7,hmode=2),dict(ni=7,hmode=2,nbss=4),['rekey','new spills'],ov=SB,bounds='rekey keeps all records')])
P['C07']=dict(title='on-disk format',assume=DB,jobs=[
 *many(),
 manybig(),
 two(),
 hugespill(),
 huge(),
 J('db','h_batch',dict(nk=16,ni=15,hmode=2,bs=400,maxfl=1,mid=2,lf=20),dict(nk=16,ni=15,hmode=2,bs=400,maxfl=2,mid=2,lf=20),['batch','split'],bounds='many equal hashes in one bucket'),
 wide(),
 J('db','h_history',dict(nk=3,steps=5),dict(nk=3,steps=6),['history'],bounds='files parsed after every close by an independent reader'),
 J('db','h_batch',dict(nk=4,ni=4,bs=122,hmode=4,lf=50,maxfl=1),dict(nk=4,ni=4,bs=122),['batch'],bounds='arbitrary hashes, capacity 6'),
 J('db','h_batch',dict(nk=7,ni=7,hmode=3,hb=1,lf=90,maxfl=1),dict(nk=9,ni=9,hmode=3,hb=1,lf=90,maxfl=2),['batch','spill and split'],bounds='spills and splits'),
 J('db','h_batch',dict(nk=9,ni=9,hmode=2,every=3),dict(nk=15,ni=15,hmode=2,every=2),['batch','spill'],bounds='chains of spills')])
P['C09']=dict(title='mismatching files are refused',assume=DB,jobs=[
 J('files','h_open',{},{},['refused','accepted'],bounds='every value of every header field of both files'),
 J('files','h_open_short',{},{},['short'],bounds='every truncation inside the headers')])
P['C10']=dict(title='linear hashing',assume=DB,jobs=[
 many()[2],
 two(),
 huge(),
 J('format','h_index',{},{},['index','split'],bounds='every hash and every bucket count up to 2^48',internal=True),
 J('format','h_pow2',{},{},['pow2'],bounds='every 64-bit value',internal=True),
 J('growth','h_growth',dict(every=1),dict(every=1,nbs=4),['growth','split'],bounds='bucket counts and occupancy after every commit for a free load factor'),
 J('growth','h_growth',dict(nk=8),dict(nk=16,every=1,nbs=4),['growth','split'],bounds='longer histories'),
 J('db','h_batch',dict(nk=7,ni=6,hmode=1,hb=1,maxfl=1),dict(nk=7,ni=6,hmode=1,hb=2,maxfl=2),['batch','split'],bounds='placement of every item in whole databases with splits')])
P['C11']=dict(title='bucket operations',assume=ENV+['bucket images are arbitrary valid buckets: count<=capacity, entries sorted by hash'],jobs=[
 *many(),
 manybig(),
 hugespill(),
 J('bucket','h_insert',dict(cap=5),dict(cap=9),['insert'],bounds='one insert into any valid bucket with up to cap entries',internal=True),
 J('bucket','h_erase',dict(cap=5),dict(cap=9),['erase'],bounds='one erase of any index',internal=True),
 J('bucket','h_misc',dict(cap=5),dict(cap=9),['misc'],bounds='spill set, compact write, clear, sizes',internal=True),
 J('db','h_batch',dict(nk=5,ni=5,hmode=0,lf=99,maxfl=0,mid=0),dict(nk=5,ni=5,hmode=0,lf=99,maxfl=1),['batch'],bounds='whole database with one bucket, arbitrary hashes: entries sorted, exact and complete')])
P['C14']=dict(title='recovery applies only its own log',assume=DB,jobs=[
 hugerekey(),
 hugecrash(),
 J('files','h_nolog',{},{},['nolog'],bounds='no log, or any log shorter than its header'),
 J('files','h_loghdr',{},{},['refused','applied','rekey log'],bounds='every value of every log header field'),
 J('files','h_logcut',{},dict(nr=2,maxc=3),['logcut','grown'],bounds='up to two records with arbitrary contents, cut at every length')])
P['C15']=dict(title='rekey equivalence',assume=DB,jobs=[
 *many(),
 manybig(),
 J('rekey','h_rekey',dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2),dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2,every=3),['rekey','new spills','several passes','old spill record'],ov=SB,bounds=TB),
 wide('h_wide_tools'),
 J('rekey','h_rekey',dict(ni=2),dict(ni=3),['rekey'],ov=SB,bounds='arbitrary hashes under both salts, several block sizes, load factors, item counts and buffer sizes',topt=True),
 J('rekey','h_rekey',dict(ni=7,hmode=2),dict(ni=12,hmode=2,every=3),['rekey','new spills','several passes','old spill record'],ov=SB,bounds='equal hashes: old spill records skipped, new ones written'),
 J('rekey','h_rekey',dict(ni=4,hmode=1,hb=1,nbss=1),dict(ni=5,hmode=1,hb=1),['rekey','several passes'],ov=SB,bounds='bucket-choosing bits free',topt=True),
 J('rekey','h_rekey_refuse',dict(ni=1),{},['refused'],ov=SB,bounds='existing key or log file')])
P['C16']=dict(title='interrupted rekey',assume=CRASH,jobs=[
 J('rekey','h_rekey_fault',dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2),dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2,every=3),['rekey failed','rolled back','past the last operation'],ov=SB,bounds=TB,topt=True),
 J('rekey','h_rekey_crash',dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2),dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2,every=3),['crash','rolled back'],ov=SB,bounds=TB,topt=True),
 hugerekey(),
 J('rekey','h_rekey_crash',dict(ni=2,nbss=1,nlfs=1,nic=1,nbufs=1),dict(ni=2),['crash','rolled back','completed','after success'],ov=SB,bounds='crash before any file operation of rekey',topt=True),
 J('rekey','h_rekey_crash',dict(ni=7,hmode=2),dict(ni=12,hmode=2),['crash','rolled back','completed','after success'],ov=SB,bounds='with spill records',topt=True),
 J('rekey','h_rekey_crash_recover',dict(ni=7,hmode=2,nbss=1,nlfs=1),dict(ni=7,hmode=2),['crash','rolled back'],ov=SB,bounds='recovery is interrupted as well',topt=True),
 J('rekey','h_rekey_fault',dict(ni=1),dict(ni=2),['rekey failed','never started','rolled back','past the last operation'],ov=SB,bounds='any file operation of rekey fails',topt=True)])
P['C17']=dict(title='verify',assume=DB,jobs=[
 *many(),
 manybig(),
 J('verify','h_verify_bad',dict(ni=13,hmode=6),dict(ni=13,hmode=6),['bad','spill'],ov=SB,bounds=TB,topt=True),
 J('verify','h_verify_good',dict(ni=14,hmode=6),dict(ni=14,hmode=6,every=3),['fast','normal','spills','unused spills'],ov=SB,bounds=TB),
 J('verify','h_verify_good',dict(ni=50,hmode=2),dict(ni=52,hmode=2,every=4),['fast','normal','spills'],ov=SB,defs=('MANY_KEYS=64',),bounds='a chain of nine spill records'),
 J('verify','h_verify_good',dict(ni=53,hmode=2),dict(ni=54,hmode=2,every=6),['fast','normal','spills'],ov=SB,defs=('MANY_KEYS=64',),bounds='a chain of ten spill records'),
 J('verify','h_verify_good',dict(ni=60,hmode=2,every=5),dict(ni=62,hmode=2,every=3),['fast','normal','spills','unused spills'],ov=SB,defs=('MANY_KEYS=64',),bounds='a chain of eleven spill records'),
 wide('h_wide_tools'),
 J('verify','h_verify_good',dict(ni=3),dict(ni=3),['fast','normal'],ov=SB,bounds='arbitrary hashes, four buffer sizes'),
 J('verify','h_verify_good',dict(ni=8,hmode=3,hb=1),dict(ni=9,hmode=3,hb=2),['fast','normal','spills'],ov=SB,bounds='spills and splits',topt=True),
 J('verify','h_verify_good',dict(ni=14,hmode=2,every=2),dict(ni=16,hmode=2,every=2),['spills'],ov=SB,bounds='spill chains, unused spills'),
 J('verify','h_verify_bad',dict(ni=3),dict(ni=3),['bad','offset','size','hash','count','spill','record size','record key','truncated','header'],ov=SB,bounds='one field of a bucket entry, bucket, record or header changed to any other value, or the data file cut anywhere'),
 J('verify','h_verify_bad',dict(ni=7,hmode=2,bufs=2),dict(ni=7,hmode=2),['bad','spill'],ov=SB,bounds='the same with spill records',topt=True),
 J('verify','h_verify_bad',None,dict(ni=6,hmode=1,hb=1),['bad'],ov=SB,bounds='the same with several buckets',topt=True),
 J('verify','h_verify_dup',{},{},[],ov=SB,bounds='known finding: duplicate keys')])
P['C25']=dict(title='close and reopen',assume=CRASH,jobs=[
 J('faults','h_fault',dict(nb=7,nn=6,hmode=6,lf=60),dict(nb=7,nn=6,hmode=6,lf=60,every=2),['fault','past the last operation'],ov=SB,bounds=TB,topt=True),
 huge(),
 J('db','h_history',dict(nk=3,steps=5),dict(nk=3,steps=6),['history'],bounds='log removed, files complete and reopenable after every close'),
 J('faults','h_fault',dict(nb=1,nn=2,fetch=0),dict(nb=1,nn=2,every=1),['close failed','close ok','past the last operation'],ov=SB,bounds='close with a failing file operation anywhere before or in it'),
 J('faults','h_fault',dict(nb=1,nn=2,same=1),dict(nb=1,nn=2,every=1,same=1),['same object','past the last operation'],ov=SB,bounds='the object itself is used again after the failure',topt=True),
 J('crash','h_crash',dict(nb=4,nn=2,hmode=2,lf=90),dict(nb=1,nn=2),['crash'],ov=SB,bounds='a close that returned is durable',topt=True)])
BA=('BOOST_DISABLE_ASSERTS',)
P['C27']=dict(title='damaged files',assume=DB+['library assertions are compiled out (they abort on some damaged buckets in debug builds)'],jobs=[
 J('damaged','h_dmg_log',dict(bytes=20,pad=400),dict(bytes=30,pad=1300),['refused','accepted','log'],defs=BA,ov=SB,bounds='arbitrary first bytes of the log records',topt=True),
 J('damaged','h_dmg_bucket',dict(ni=2),dict(ni=2,entries=2),['bucket','fetch error','fetch ok'],defs=BA,ov=SB,bounds='arbitrary count, spill offset and entries of any bucket',topt=True),
 J('damaged','h_dmg_bucket',dict(ni=3,hmode=2),dict(ni=7,hmode=2),['bucket'],defs=BA,ov=SB,bounds='the same with equal hashes',topt=True),
 J('damaged','h_dmg_bucket_verify',{},dict(entries=2),['verify'],defs=BA,ov=SB,bounds='verify on the same',topt=True),
 J('damaged','h_dmg_visit',{},dict(bytes=24),['visit','visit error'],defs=BA,ov=SB,bounds='arbitrary data file bytes',topt=True),
 J('damaged','h_dmg_data_verify',{},dict(bytes=24),['verify'],defs=BA,ov=SB,bounds='arbitrary data file bytes',topt=True),
 J('damaged','h_dmg_rekey',{},dict(bytes=24),['rekey','rekey error'],defs=BA,ov=SB,bounds='arbitrary data file bytes',topt=True),
 J('damaged','h_dmg_data_fetch',{},{},['data','fetch error','fetch ok'],defs=BA,ov=SB,bounds='arbitrary data file bytes and length'),
 J('damaged','h_dmg_chain',dict(ni=3,hmode=2),dict(ni=2),['chain','insert error','insert ok'],defs=BA,ov=SB,bounds='arbitrary spill offsets, cycles included'),
 J('damaged','h_dmg_chain_verify',{},dict(ni=3),['chain verify','verify error','verify ok'],defs=BA,ov=SB,bounds='arbitrary spill offsets, cycles included')])
P['C08']=dict(title='byte layout of the files',assume=DB,jobs=[
 manybig(),
 two(),
 J('format','h_fields',{},{},['fields'],bounds='every value of every integer field',internal=True),
 J('format','h_headers',dict(fsbits=20),dict(fsbits=24),['headers'],bounds='every value of the header fields (file sizes up to 2^fsbits)',internal=True),
 J('create','h_create_args',dict(nbs=3),dict(nbs=6),['created','used'],ov=SB,bounds='header fields of both files for free appnum, uid, salt and load factor and several block sizes'),
 J('create','h_log_bytes',dict(ni=2,nn=1),dict(ni=4,nn=2),['commit log','rekey log','log records'],ov=SB,bounds='every byte of the log file of a commit and of a rekey'),
 J('files','h_open',{},{},['refused','accepted'],bounds='every header field value is read back by the layout'),
 J('db','h_batch',dict(nk=7,ni=7,hmode=3,hb=1,lf=90,maxfl=1),dict(nk=9,ni=9,hmode=3,hb=1,lf=90,maxfl=2),['batch','spill and split'],bounds='buckets, spill records and data records parsed by an independent reader')])
P['C18']=dict(title='visit',assume=DB,jobs=[
 *many(),
 wide('h_wide_tools'),
 J('visit','h_visit_fail',{},{},['past the last operation'],ov=SB,bounds='every file operation of visit fails'),
 J('visit','h_visit_file',dict(nr=2,blk=1),dict(nr=3,blk=1),['truncated','complete','stopped','visit'],ov=SB,bounds='any sequence of nr records of free kind, size and contents, cut anywhere; the callback stops anywhere'),
 J('visit','h_visit_db',dict(blk=1,ni=7,hmode=2),dict(blk=1,ni=12,hmode=2),['spills'],ov=SB,bounds='database with spill records')])
P['C19']=dict(title='create',assume=CRASH,jobs=[
 J('create','h_create_args',dict(nbs=3),dict(nbs=6),['refused','created','used'],ov=SB,bounds='free load factor, block size, salt, appnum'),
 J('crash','h_created',dict(nn=2),dict(nn=3,every=1,hmode=5,hb=1),['crash','used','unused'],ov=SB,bounds='the machine stops right after create returned or anywhere in the first use of the database',topt=True),
 J('create','h_create_exists',{},{},['exists'],ov=SB,bounds='any subset of the three files exists'),
 J('create','h_create_fault',{},{},['fault','retried','past the last operation'],ov=SB,bounds='every file operation of create fails, once or from there on, partial writes included')])
P['C24']=dict(title='xxhasher',assume=ENV,jobs=[
 J('hash','h_hash',dict(n=100),dict(n=200),['short','long','unaligned'],bounds='every input of every length below n at every alignment, every seed, against an independent XXH64')])
P['C29']=dict(title='error codes',assume=ENV,jobs=[
 J('errors','h_errors',{},{},['pair'],bounds='every pair of error values'),
 J('errors','h_equiv',{},{},['equiv'],bounds='every error value against the error condition'),
 J('errors','h_situations',{},{},['situation'],bounds='codes reported by the library')])
THR=DB+['threads are explored as interleavings at lock, condition variable, atomic-lock and file operation boundaries with a bound on preemptive switches; race freedom (C23) extends that to accesses between those points','harness code itself is exempt from race detection']
P['C12']=dict(title='buffered readers and writers',assume=ENV+['the file under bulk_reader/bulk_writer is a model with free contents'],jobs=[
 manybig(),
 J('rekey','h_rekey',dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2),dict(ni=13,hmode=6,nlfs=1,nbss=1,minic=4,nic=2,every=3),['rekey','new spills','several passes','old spill record'],ov=SB,bounds=TB),
 hugespill(),
 J('bulk','h_read',dict(steps=3),dict(steps=4,maxbuf=7,maxneed=9,maxfile=16),['read','short read','failed'],bounds='steps prepare() calls of any size up to maxneed, every buffer size up to maxbuf, every file length up to maxfile, any failing file read',internal=True,topt=True),
 J('bulk','h_write',dict(steps=3),dict(steps=5,maxbuf=8,maxneed=9),['write','failed'],bounds='steps prepare()/flush() calls of any size, every buffer size, any failing file write',internal=True,topt=True),
 J('visit','h_visit_file',dict(nr=2,blk=1),dict(nr=3,blk=1),['truncated','complete'],ov=SB,bounds='data file records across buffer boundaries as seen by visit'),
 J('rekey','h_rekey',dict(ni=2),dict(ni=3),['rekey'],ov=SB,bounds='records copied by rekey through small buffers',topt=True)])
P['C13']=dict(title='posix_file',assume=DB+['each system call returns any result its specification allows (script in harness/posix.cpp)'],jobs=[
 J('faults','h_benign',dict(nb=7,nn=6,hmode=6,lf=60),dict(nb=7,nn=6,hmode=6,lf=60,every=2),['benign','past the last operation'],ov=SB,bounds=TB,topt=True),
 huge(),
 J('posix','h_pread',dict(n=5,eintr=2),dict(n=7,eintr=3),['error','interrupted','read','short'],bounds='read of n bytes: every sequence of transfer sizes, interruptions (up to eintr), end of file or error'),
 J('posix','h_pwrite',dict(n=5,eintr=2),dict(n=7,eintr=3),['error','write','interrupted'],bounds='write of n bytes: the same'),
 J('posix','h_sync_trunc',dict(eintr=3),dict(eintr=6),['sync','trunc'],bounds='sync and trunc with interruptions and errors, any length'),
 J('posix','h_size',{},{},['size'],bounds='any size or error'),
 J('posix','h_open_create',{},{},['error','exists','missing','open','fadvise'],bounds='open and create with every outcome of open and posix_fadvise'),
 J('posix','h_erase',{},{},['erased'],bounds='every outcome of unlink'),
 J('posix','h_move',{},{},['move'],bounds='every sequence of moves between two files'),
 J('faults','h_benign',dict(every=1),dict(every=1),['benign','past the last operation'],ov=SB,bounds='whole database: interruptions and short transfers of any length at any system call change nothing',topt=True),
 J('faults','h_benign',dict(nb=4,nn=3,hmode=2,lf=90),dict(nb=4,nn=4,hmode=1,hb=1,every=2),['benign','past the last operation'],ov=SB,bounds='the same with spill records (thorough: splits)',topt=True)])
C20Q=[
 J('conc','h_fetch_flush',dict(lf=20,np=3,committed=2,budget=2),dict(lf=20,np=3,committed=2,budget=3),['done','found','absent'],bounds='one reader against a commit; budget preemptions anywhere',topt=True),
 J('conc','h_fetch_flush',dict(lf=20,budget=1),dict(lf=20,budget=2),['done','found','absent'],bounds='the same with a split of a full bucket and a spill record',topt=True),
 J('conc','h_fetch2_flush',dict(lf=20,np=3,committed=2,budget=2),dict(lf=20,np=3,committed=2,budget=2),['done','found'],bounds='two readers against a commit',topt=True),
 J('conc','h_insert_fetch_flush',dict(lf=20,budget=1),dict(lf=20,budget=2),['done','found','absent'],bounds='an insert, a reader and a commit',topt=True),
 J('conc','h_insert_insert',dict(lf=20,budget=1),dict(lf=20,budget=2),['done','loser'],bounds='two inserts of equal or different keys and a commit',topt=True),
 J('conc','h_insert_insert',dict(lf=20,flush=0,budget=2),dict(lf=20,flush=0,budget=3),['done','loser'],bounds='two inserts',topt=True),
 J('conc','h_two_flushes',dict(lf=20,budget=1),dict(lf=20,budget=2),['done','found'],bounds='a reader, an insert and two commits in a row',topt=True),
 J('conc','h_service',dict(budget=3),dict(budget=4),['service'],bounds='the library service thread, inserts, a reader and close',topt=True)]
P['C20']=dict(title='concurrent use of a database',assume=THR,jobs=C20Q)
P['C21']=dict(title='gentex',assume=THR,jobs=[
 J('gentex','h_step',{},{},['step'],bounds='every generation and count',internal=True),
 J('gentex','h_wait',{},{},['wait'],bounds='waiting for readers of the other generation',internal=True),
 J('gentex','h_genlock',{},{},['genlock'],bounds='copies, moves and swaps of genlock',internal=True),
 J('gentex','h_fence',dict(fences=2,readers=2,rounds=1,budget=3,spurious=1),dict(fences=2,readers=2,rounds=1,budget=4,spurious=2),['fence','earlier reader','later reader held'],bounds='readers and a fencing thread, every schedule with budget preemptions and up to `spurious` spurious wakeups',internal=True,topt=True),
 J('gentex','h_fence',dict(fences=1,readers=2,rounds=1,budget=3),dict(fences=1,readers=2,rounds=1,budget=4),['fence'],bounds='one fence',internal=True,topt=True),
 J('gentex','h_fence',dict(fences=2,readers=1,rounds=2,budget=4,spurious=1),dict(fences=3,readers=1,rounds=2,budget=5,spurious=2),['fence'],bounds='one reader locking twice',internal=True,topt=True),
 J('conc','h_fetch_flush',dict(lf=20,budget=1),dict(lf=20,budget=2),['done','found'],bounds='a commit waits for the readers that started before it',topt=True)])
P['C22']=dict(title='context',assume=THR,jobs=[
 J('context','h_seq',dict(stores=3,steps=6),dict(stores=3,steps=7),['round','shutdown'],bounds='every sequence of steps operations insert/erase/flush on stores databases',internal=True),
 J('context','h_destroy',{},{},['threw','clean'],bounds='destruction with and without an open database',internal=True),
 J('context','h_flush',dict(budget=3,spurious=1),dict(stores=3,budget=3,spurious=1),['shutdown'],bounds='two flushes by hand and a close',internal=True,topt=True),
 J('context','h_close_stop',dict(budget=3,spurious=1),dict(budget=4,spurious=1),['shutdown'],bounds='a close by another thread while a worker flushes and everything is stopped',internal=True,topt=True),
 J('context','h_close_stop',dict(stores=2,closers=2,budget=2),dict(stores=2,closers=2,budget=3),['shutdown'],bounds='two closes by other threads, a worker and stop_all',internal=True,topt=True),
 J('context','h_close_stop',dict(stores=2,closers=2,budget=2,stop=0),dict(stores=2,closers=2,budget=3,stop=0),['closed while running'],bounds='two closes by other threads and a worker',internal=True,topt=True),
 J('context','h_close2',dict(budget=2),dict(budget=3),['closed both'],bounds='two closes beside two flushes by hand',internal=True,topt=True),
 J('context','h_flush_ignored',dict(stores=2,budget=2),dict(stores=2,budget=3),['flush ignored'],bounds='flush by hand beside a service thread',internal=True,topt=True),
 J('context','h_workers',dict(threads=1,budget=3),dict(threads=1,stores=3,budget=4),['flushed','shutdown','round due'],bounds='one service thread, a close, stop_all',internal=True,topt=True),
 J('context','h_workers',dict(threads=2,budget=2,readd=1,spurious=1),dict(threads=2,stores=3,budget=3,readd=1,spurious=1),['flushed','shutdown'],bounds='two service threads, a close, stop_all',internal=True,topt=True),
 J('context','h_stop',dict(budget=3,spurious=1),dict(budget=4),['shutdown'],bounds='start, run, stop_all and restart at any moment',internal=True,topt=True),
 J('conc','h_service',dict(budget=2),dict(budget=3),['service','committed by itself'],bounds='a database with its own service thread',topt=True),
 J('conc','h_service2',dict(budget=2),dict(threads=2,budget=2),['service2','committed'],bounds='two databases sharing one service thread',topt=True),
 J('conc','h_service2',dict(threads=2,budget=1),None,['service2','committed'],bounds='two databases sharing two service threads',topt=True)])
def hb(j,q=None): return J(j.h,j.e,dict(q or j.q,hb_on=1),dict(j.t or j.q,hb_on=1),j.reach,bounds=j.bounds,internal=j.internal,topt=True)
P['C23']=dict(title='data-race freedom',assume=THR+['happens-before is computed from mutexes, condition variables, thread start/join and atomics (atomics count as acquire and release)'],jobs=[hb(j) for j in C20Q]+[
 J('conc','h_access',dict(lf=20,budget=1,hb_on=1),dict(lf=20,budget=2,hb_on=1),['done'],bounds='accessors and set_burst beside an insert and a commit',topt=True),
 J('context','h_workers',dict(threads=2,budget=2,hb_on=1),dict(threads=2,stores=3,budget=3,hb_on=1),['shutdown'],bounds='two service threads',internal=True,topt=True),
 J('context','h_flush',dict(budget=2,hb_on=1),dict(stores=3,budget=3,hb_on=1),['shutdown'],bounds='flushes by hand and a close',internal=True,topt=True),
 J('context','h_stop',dict(budget=2,hb_on=1),dict(budget=3,hb_on=1),['shutdown'],bounds='start, run and stop_all',internal=True,topt=True)])
P['C26']=dict(title='buffered items',assume=DB,jobs=[
 J('pool','h_arena',dict(steps=5),dict(steps=6),['arena','moved'],bounds='every sequence of steps operations alloc(any size)/clear/shrink/swap/move on two arenas: no two live allocations overlap',internal=True,topt=True),
 J('pool','h_pool',dict(steps=5,ni=3),dict(steps=6,ni=4),['pool'],bounds='every sequence of insert(any size)/clear/swap/find on two pools',internal=True,topt=True),
 J('pool','h_cache',dict(steps=4),dict(steps=5),['cache'],bounds='every sequence of create/insert/find/clear/swap on two caches',internal=True,topt=True),
 J('conc','h_buffered',dict(budget=1,lf=90,bigval=40),dict(budget=2,lf=90,bigval=40),['buffered','done'],bounds='items inserted and fetched while a commit exchanges the pools, free value bytes and sizes',topt=True),
 J('db','h_batch',dict(nk=6,ni=5,hmode=3,hb=1,maxfl=2,bigval=40,mid=2),dict(nk=6,ni=5,hmode=3,hb=1,maxfl=2,bigval=60,mid=2),['batch'],bounds='fetches of buffered items before and after flushes')])
P['C28']=dict(title='throttling',assume=THR+['the clock moves only where the harness moves it; sleeping does not advance it unless stated'],jobs=[
 J('throttle','h_throttle',dict(sel=0,nk=5),dict(sel=2,nk=3),['throttle','held back','not held back'],bounds='inserts and commits in any order with chosen clock steps, zero and backward steps included (thorough: elapsed time free)',topt=True),
 J('throttle','h_throttle',dict(sel=0,nk=4,burst2=1),dict(sel=0,nk=5,burst2=1),['throttle','held back','not held back'],bounds='the burst size is changed on the way',topt=True),
 J('throttle','h_throttle',dict(sel=0,nk=4,bigval=4000,hmode=2),dict(sel=0,nk=5,bigval=4000,hmode=2),['throttle','held back','not held back'],defs=('VMAX=4096',),bounds='values of 4000 bytes',topt=True),
 J('throttle','h_throttle',None,dict(sel=1,nk=3),['throttle'],bounds='measured flush rate free',topt=True,optional=True)])
P['C30']=dict(title='progress reports',assume=DB,jobs=[
 J('progress','h_prog_verify',dict(ni=2),dict(ni=3),['normal','fast'],ov=SB,bounds='every population of ni items with free hashes, load factors from a table, four buffer sizes'),
 J('progress','h_prog_verify',dict(ni=7,hmode=2,nlfs=3,reopen=0),dict(ni=7,hmode=2),['normal','fast'],ov=SB,bounds='with spill records, also outdated ones'),
 J('progress','h_prog_verify',dict(ni=13,hmode=6,nlfs=3,flush=0),dict(ni=15,hmode=6,flush=0),['normal','fast'],ov=SB,bounds=TB),
 J('progress','h_prog_verify',dict(ni=1,items=500,nlfs=1,flush=0),dict(ni=2,items=1000,nlfs=1,flush=0),['normal','fast'],ov=SB,bounds='more than a hundred buckets'),
 J('progress','h_prog_visit',dict(ni=6,hmode=2),dict(ni=8,hmode=2),['visit'],ov=SB,bounds='data files with spill records'),
 J('progress','h_prog_rekey',dict(ni=2,nlfs=1,flush=0),dict(ni=3,nlfs=1,flush=0),['rekey'],ov=SB,bounds='new block size, load factor, item count and buffer size from tables; several passes'),
 J('progress','h_prog_rekey',dict(ni=7,hmode=2,nlfs=1,reopen=0),dict(ni=9,hmode=2,nlfs=1,reopen=0),['rekey'],ov=SB,bounds='with spill records, old and new')])
P['C31']=dict(title='nothing leaks',assume=DB,jobs=[
 J('leak','h_leak_store',dict(ni=3,rounds=2),dict(ni=5,rounds=1),['store','destroyed while open','past the last operation'],ov=SB,bounds='any operation of the second session fails, alone or all from there on'),
 J('leak','h_leak_store',dict(ni=3,rounds=3,hmode=2),dict(ni=4,rounds=2,hmode=2),['store'],ov=SB,bounds='three sessions with one object'),
 J('leak','h_leak_store',None,dict(ni=3,rounds=2,hmode=0),['store'],ov=SB,bounds='free hashes'),
 J('leak','h_leak_tools',dict(ni=3),dict(ni=4,hmode=0),['create','verify slow','verify fast','visit','rekey','recover'],ov=SB,bounds='any operation of create, verify, visit, rekey, recover fails'),
 J('leak','h_leak_tools',dict(ni=7,hmode=2),dict(ni=8,hmode=2,buffer=100),['verify slow','verify fast','visit','rekey'],ov=SB,bounds='with spill records'),
 J('leak','h_leak_tools',dict(ni=3,fault=0),dict(ni=7,hmode=2,fault=0),['create','verify slow','verify fast','visit','rekey','recover'],ov=SB,bounds='without failure'),
 J('leak','h_leak_recover',dict(ni=3),dict(ni=4,hmode=0),['recover commit','recover rekey','by open'],ov=SB,bounds='recovery after a crash at any operation, failing at any operation'),
 J('leak','h_leak_growth',dict(ni=6,rounds=6,fault=0,hmode=3),dict(ni=6,rounds=6,fault=0,hmode=0),['growth'],ov=SB,bounds='six commits, every placement',topt=True),
 J('leak','h_leak_context',dict(ni=2,budget=1,fault=0),dict(ni=2,budget=2,fault=0),['no thread','thread','stopped early'],ov=SB,bounds='service thread and user thread'),
 J('posix','h_move',{},{},['move'],bounds='every sequence of moves between two file objects'),
 J('leak','h_leak_context',dict(ni=2,budget=0),dict(ni=2,budget=1),['no thread','thread','stopped early'],ov=SB,bounds='with a failing operation')])
P['C32']=dict(title='bounded cost',assume=DB,jobs=[
 J('io','h_io_cost',dict(ni=3),dict(ni=4),['cost','commit','collision'],ov=SB,bounds='free hashes, flush or not after each insert'),
 J('io','h_io_cost',dict(ni=12,hmode=2,every=5),dict(ni=16,hmode=2,every=3),['cost','commit','chain','collision'],ov=SB,bounds='one bucket overflowing into spill records'),
 J('io','h_io_cost',dict(ni=7,hmode=3,hb=1,every=3,lf=20),dict(ni=9,hmode=3,hb=1,every=3,lf=20),['cost','commit','chain','collision'],ov=SB,bounds='buckets that split within the commit'),
 J('io','h_io_cost',dict(ni=4,hmode=3),dict(ni=5,hmode=3),['cost','commit','collision'],ov=SB,bounds='full collisions or none')])
P['C33']=dict(title='no waiting for a commit',assume=DB,jobs=[
 J('io','h_io_nonblock',dict(nb=1,nn=1),dict(nb=2,nn=2),['nonblock','past the last operation'],ov=SB,bounds='any operation of the commit'),
 J('io','h_io_nonblock',dict(nb=2,nn=1),dict(nb=2,nn=1,lf=20),['nonblock','past the last operation'],ov=SB,bounds='free hashes',topt=True),
 J('io','h_io_nonblock',dict(nb=7,nn=5,hmode=2),dict(nb=12,nn=7,hmode=2),['nonblock','past the last operation'],ov=SB,bounds='spill records'),
 J('io','h_io_nonblock',dict(nb=5,nn=3,hmode=3,hb=1,lf=20),dict(nb=6,nn=4,hmode=3,hb=1,lf=20),['nonblock','past the last operation'],ov=SB,bounds='splits')])
NA={}
