import sys
sys.path.insert(0,'/verif/lib')
import vf
h=sys.argv[1]; cfgs=sys.argv[2].split(',')
env=dict(a.split('=',1) for a in sys.argv[3:])
jobs=[vf.Job(h+'/'+c,vf.build_harness(h,vf.CONFIGS[c]),env,timeout=300,cfg=vf.CONFIGS[c]) for c in cfgs]
for j in vf.run_jobs(jobs,'Cxx'):
    print(j.label,'rc',j.rc,'wall %.1f'%j.wall,'err',j.error)
    for v in j.viols[:8]: print('  V',str(v)[:300])
    print('  ',str(dict(j.stats))[:500])
    for s in j.infos[:20]: print('   I',s)
