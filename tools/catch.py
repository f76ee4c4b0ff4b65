import subprocess, sys, os, json, time, glob
S='/verif/seeded'; M='/tmp/w/mut'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = sys.argv[1:] or sorted(os.listdir(S))
head=sh('git -C /repo rev-parse HEAD').stdout.strip()
sh('rm -rf /tmp/w/mut; git clone -q /repo /tmp/w/mut')
for i in ids:
    p = i.split('=')[1] if '=' in i else None; i = i.split('=')[0]
    prop = p or json.load(open(f'{S}/{i}/meta.json'))['property']
    sh(f'git -C {M} checkout -q -- .'); r=sh(f'git -C {M} apply {S}/{i}/patch.diff')
    assert not r.returncode, r.stdout
    t=time.time()
    r = sh(f'cd /verif && VF_REPO={M} VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {prop}' if os.path.exists('/verif/check.py') else '')
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, prop, 'rc', r.returncode, 'CAUGHT' if r.returncode==1 and v else 'MISSED', '%.0fs'%(time.time()-t), '' if v else r.stdout[-300:], flush=True)
sh(f'git -C {M} checkout -q -- .')
