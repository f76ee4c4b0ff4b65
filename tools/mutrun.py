"""mutrun.py from to [ws]: mutants from mlist.json"""
import json,sys,subprocess,shutil,os,hashlib,time
a,b=int(sys.argv[1]),int(sys.argv[2]); ws=sys.argv[3] if len(sys.argv)>3 else 'A'
M=json.load(open('/tmp/w/mlist.json'))
W='/tmp/w/mu'+ws
sh=lambda c:subprocess.run(c,shell=True,capture_output=True,text=True)
if not os.path.exists(W): sh('git clone -q /repo %s'%W)
def objs():
    ps=[]
    for n,v in (('d','VARIANT=default'),('l','VARIANT=light'),('s','CONFIG_SEAL_METADATA=true CONFIG_STATS=true')):
        o='/tmp/w/muo%s%s'%(ws,n)
        ps.append((o,subprocess.Popen('cd %s && make -s CC=gcc CONFIG_NATIVE=false CONFIG_WERROR=false OUT=%s %s'%(W,o,v),shell=True,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)))
    r=[]
    for o,p in ps:
        if p.wait(): return None
        h=hashlib.sha256()
        for f in sorted(os.listdir(o)):
            if f.endswith('.so'):
                # never name a path in /dev as objcopy's output: it replaces the file
                x=o+'/'+f+'.bin'
                subprocess.run(['objcopy','-O','binary','-j','.text*','-j','.data*','-j','.rodata*',o+'/'+f,x],check=True)
                h.update(open(x,'rb').read())
                os.unlink(x)
        r.append(h.hexdigest())
    return r
def clean(): sh('git -C %s checkout -q -- .'%W)
clean(); sh('touch %s/*.c %s/*.h %s/*.cc'%(W,W,W)); base=objs()
log=open('/tmp/w/mutlog.%s'%ws,'a')
for id,f,i,k,old,new in M[a:b]:
    clean()
    sh('touch %s/*.c %s/*.cc'%(W,W))
    p=W+'/'+f; L=open(p).read().split('\n'); assert L[i]==old; L[i]=new; open(p,'w').write('\n'.join(L))
    o=objs()
    t=time.time()
    if o is None: v='NOCOMPILE'
    elif o==base: v='SAME'
    else:
        r=subprocess.run('VF_REPO=%s timeout 400 python3 /tmp/w/screen.py'%W,shell=True,capture_output=True,text=True)
        v=(r.stdout.strip().splitlines() or ['??? '+r.stderr[-200:]])[-1]
    print(id,f,i+1,k,'%.0fs'%(time.time()-t),v,'|',old.strip()[:80],'=>',new.strip()[:80],file=log,flush=True)
