import sys,os
sys.path.insert(0,'/verif/lib')
import vf
mte=sys.argv[1]=='mte'; cfgs=sys.argv[2].split(',')
env=dict(a.split('=',1) for a in sys.argv[3:])
jobs=[]
for c in cfgs:
    try: exe=vf.build_droid(vf.CONFIGS[c],mte)
    except vf.BuildError as e: print(c,e,e.log[-300:]); continue
    jobs.append(vf.Job('droid/'+c,exe,env,timeout=200,cfg=vf.CONFIGS[c]))
for j in vf.run_jobs(jobs,'Cxx'):
    print(j.label,'rc',j.rc,'wall %.1f'%j.wall,'err',j.error)
    for v in j.viols[:6]: print('  V',v)
    print('  ',dict(j.stats)); 
    for s in j.infos[:20]: print('   I',s)
