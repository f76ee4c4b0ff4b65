"""VF_REPO=... screen.py : runs stage A then B; prints verdict"""
import sys,os,time; sys.path.insert(0,'/verif/lib')
os.environ['VERIF_SEED']='1'
import vf,checks,concurrent.futures as cf
from vf import Job,CONFIGS,build_harness
C=CONFIGS
CX=dict(flags=[vf.HARNESS+'/cxxops.cc','-fsized-deallocation'],libs=['-lstdc++'])
A=[('model','default',dict(VF_PROFILE='mixed',VF_OPS=20000,VF_THREADS=1)),('misuse','default',dict(VF_MODE='c05',VF_ROUNDS=150)),('model','light',dict(VF_PROFILE='large',VF_OPS=1500,VF_CAP=256,VF_THREADS=1)),('sys','default',{})]
B=[('model','default',dict(VF_PROFILE='churn',VF_OPS=30000,VF_THREADS=4)),
('model','light',dict(VF_PROFILE='mixed',VF_OPS=40000,VF_THREADS=1)),
('model','m_nozero',dict(VF_PROFILE='mixed',VF_OPS=30000,VF_THREADS=1)),
('model','m_noext_nolarge',dict(VF_PROFILE='maligned',VF_OPS=20000,VF_THREADS=1)),
('model','default',dict(VF_PROFILE='maligned',VF_OPS=30000,VF_THREADS=1)),
('model','default',dict(VF_PROFILE='small',VF_OPS=80000,VF_THREADS=1)),
('misuse','default',dict(VF_MODE='c05',VF_ROUNDS=500)),('misuse','mid',dict(VF_MODE='c05',VF_ROUNDS=300)),
('misuse','default',dict(VF_MODE='c06',VF_ROUNDS=600)),('misuse','light',dict(VF_MODE='c06',VF_ROUNDS=400)),
('misuse','default',dict(VF_MODE='c07',VF_ROUNDS=700)),('misuse','light',dict(VF_MODE='c07',VF_ROUNDS=300)),
('misuse','default',dict(VF_MODE='c08',VF_ROUNDS=800)),('misuse','mid',dict(VF_MODE='c08',VF_ROUNDS=400)),
('oom','default',dict(VF_MODE='c16',VF_OPS=4000)),('oom','light',dict(VF_MODE='c16',VF_OPS=4000)),('oom','seal',dict(VF_MODE='c16',VF_OPS=2500)),
('oom','default',dict(VF_MODE='c17',VF_OPS=500)),('oom','seal',dict(VF_MODE='c17',VF_OPS=300)),
('oom','small',dict(VF_MODE='limits',VF_OPS=2)),('oom','default',dict(VF_MODE='limits',VF_OPS=1)),
('space','default',dict(VF_MODE='reuse',VF_OPS=1)),('space','light',dict(VF_MODE='reuse',VF_OPS=1)),('space','mid',dict(VF_MODE='reuse',VF_OPS=1)),
('space','default',dict(VF_MODE='foot',VF_OPS=2)),('space','light',dict(VF_MODE='foot',VF_OPS=1)),
('space','default',dict(VF_MODE='guard',VF_OPS=2)),('space','mid',dict(VF_MODE='guard',VF_OPS=1)),
('space','default',dict(VF_MODE='arena',VF_OPS=1)),('space','full4',dict(VF_MODE='full',VF_OPS=8)),('space','full8l',dict(VF_MODE='full',VF_OPS=3)),
('layout','default',dict(VF_OPS=160)),('rngbb','default',dict(VF_OPS=1)),('rngbb','light',dict(VF_OPS=1)),
('sizes','default',{}),('sizes','light',{}),
('cxx','default',dict(VF_OPS=10000,VF_MISMATCH=300)),
('forkt','default',dict(VF_MODE='busy',VF_OPS=40)),('forkt','default',dict(VF_MODE='rand',VF_OPS=1)),('forkt','seal',dict(VF_MODE='busy',VF_OPS=20)),
('mt','default',dict(VF_OPS=8000,VF_THREADS=16)),
('state','default',dict(VF_OPS=10000)),('state','seal',dict(VF_OPS=10000)),
('stats','stats',dict(VF_THREADS=4,VF_FAULT=1)),('sys','light',{}),('sys','seal',{}),('label','label',dict(VF_LABELS=1))]
def rngjobs():
    r=[]
    e=checks.whitebox('rng','wb',[],['random.c','chacha.c','util.c'])
    if e: r+=[Job('rng/'+m,e,{'VF_MODE':m,'VF_OPS':n,'VF_SEED':1},timeout=200) for m,n in (('stream',3),('u64',30000),('fail',5))]
    e=checks.whitebox('rng','stub',['-DVF_STUB'],['random.c','util.c'])
    if e: r+=[Job('rng/u16/%d'%i,e,{'VF_PART':i,'VF_PARTS':16},timeout=100) for i in range(0,16,3)]
    return r
def firstjobs():
    return [Job('first/'+c,vf.build_static('first',C[c],cc='gcc'),{'VF_OPS':60,'VF_SEED':1},timeout=100,cfg=C[c]) for c in ('noinit','niseal')]
def tsanjobs():
    return [checks.tsan_job('mt',c,{'VF_MODE':m,'VF_OPS':o,'VF_THREADS':8,'VF_SEED':1}) for c,m,o in (('tsan','mixed',8000),('tsan4','mixed',8000),('tsan','large',800))]
def mk(x):
    h,c,e=x
    return [Job(h+'/'+c+'/'+str(e.get('VF_MODE',e.get('VF_PROFILE',''))),build_harness(h,C[c],**(CX if h=='cxx' else {})),dict(e,VF_SEED=101),timeout=100,cfg=C[c])]
def run(todo,name):
    with cf.ThreadPoolExecutor(8) as ex:
        fs=[ex.submit(x) if callable(x) else ex.submit(mk,x) for x in todo]
        jobs=[j for f in fs for j in f.result()]
    js=vf.run_jobs(jobs,'Cxx',accept=['*'])
    for j in js:
        if j.viols: print('CAUGHT',name,j.label,j.viols[0][0],str(j.viols[0][1])[:110]); return 1
    for j in js:
        if j.error: print('ERROR',name,j.label,str(j.error)[:110]); return 2
    return 0
t=time.time()
try:
    r=run(A,'A') or run(B+[rngjobs,firstjobs,tsanjobs],'B')
    if not r: print('MISSED %.0f'%(time.time()-t))
except vf.BuildError as e: print('NOBUILD',str(e)[:80])
vf.cleanup()
