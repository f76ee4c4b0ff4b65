import sys; sys.path.insert(0,'/verif/lib')
import vf,concurrent.futures as cf
# mx.py harness (all|names|rN-M) K=V
h=sys.argv[1]; env=dict(a.split('=',1) for a in sys.argv[3:])
sel=sys.argv[2]
if sel=='all': cs=[vf.CONFIGS['m_'+n] for n in vf.MATRIX]
elif sel[0]=='R': a,b=sel[1:].split('-'); cs=[vf.random_config(i) for i in range(int(a),int(b)+1)]
else: cs=[vf.CONFIGS['m_'+n] for n in sel.split(',')]
kw={}
if h=='cxx':
    kw=dict(flags=[vf.HARNESS+'/cxxops.cc','-fsized-deallocation'],libs=['-lstdc++'])
    cs=[c for c in cs if c.cf()['CF_CXX']]
def mk(c):
    try: return vf.Job(h+'/'+c.name,vf.build_harness(h,c,**kw),env,timeout=float(env.get('T',200)),cfg=c)
    except vf.BuildError as e: print(c.name,'BUILD',e,e.log[-600:]); return None
with cf.ThreadPoolExecutor(8) as ex: jobs=[j for j in ex.map(mk,cs) if j]
for j in vf.run_jobs(jobs,'Cxx'):
    if j.viols or j.error: print(j.label,'rc',j.rc,'wall %.1f'%j.wall,'err',j.error)
    for v in j.viols[:4]: print('  V',v)
print(len(jobs),'jobs; max wall',max(j.wall for j in jobs), 'slow:',[(j.label,round(j.wall)) for j in sorted(jobs,key=lambda j:-j.wall)[:3]])
vf.cleanup()
