"""muts.py file.py [names]: runs the check of each mutant M = {name: (prop, [(file, old, new)])}"""
import sys,subprocess,shutil,os,time,runpy
M=runpy.run_path(sys.argv[1])['M']
names=sys.argv[2:] or list(M)
W='/tmp/w/mut'+os.environ.get('WS','')
V=os.environ.get('VERIF','/verif')
for n in names:
    props,eds=M[n]
    shutil.rmtree(W,ignore_errors=True); subprocess.run(['cp','-a','/repo',W])
    bad=False
    for f,o,new in eds:
        p=W+'/'+f; s=open(p).read()
        if s.count(o)!=1: print(n,'BAD EDIT count',s.count(o),o[:60],flush=True); bad=True; break
        open(p,'w').write(s.replace(o,new))
    if bad: continue
    r=subprocess.run('cd %s && make CC=gcc CONFIG_NATIVE=false CONFIG_WERROR=false OUT=/tmp/w/mo%s'%(W,os.environ.get('WS','')),shell=True,capture_output=True,text=True)
    if r.returncode: print(n,'NOBUILD',(r.stdout+r.stderr)[-300:],flush=True); continue
    for prop in props.split(','):
        t=time.time()
        r=subprocess.run('cd %s && VF_REPO=%s VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 check.py %s'%(V,W,os.environ.get('SEED','1'),prop),shell=True,capture_output=True,text=True)
        l=[x for x in r.stdout.splitlines() if x.strip()]
        print(n,prop,'rc',r.returncode,{1:'CAUGHT',0:'MISSED'}.get(r.returncode,'???'),'%ds'%(time.time()-t),(l[0] if l else r.stderr[-200:])[:170],flush=True)
