#!/usr/bin/env python3
"""plant.py build|verify [ids]: writes /verif/seeded/<id>/ and checks that each is good"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, '/tmp/w/plant')
from bugs import BUGS, PRELUDE
S = os.environ.get('SEEDED','/tmp/w/sn')
DEMO_SH = '''#!/bin/bash
# Builds the allocator from the current directory's sources in a scratch directory and runs demo.c on it.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp -r *.c *.h *.cc Makefile config include third_party "$dir/src/" || exit 3
make -s -C "$dir/src" CC=%(cc)s CONFIG_NATIVE=false CONFIG_WERROR=false OUT=out SUFFIX= %(opts)s >"$dir/log" 2>&1 || { tail -5 "$dir/log"; exit 3; }
%(cc2)s -O0 -w -fno-builtin -pthread -D_GNU_SOURCE %(dflags)s "$here/%(src)s" -o "$dir/demo" -L"$dir/src/out" -lhardened_malloc -Wl,-rpath,"$dir/src/out" -lm || exit 3
cd "$dir"
%(run)stimeout -s KILL 120 "$dir/demo"
rc=$?
echo "demo: $rc"
exit $rc
'''
STATIC_SH = '''#!/bin/bash
# Compiles the allocator's sources of the current directory with demo.c (%(cf)s) in a scratch directory and runs the result.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
repo=$PWD
%(pre)s%(cc)s -g -O1 -w -std=gnu17 -pthread -D_GNU_SOURCE %(cf)s -I"$here" -I"$dir/inc" -I"$repo" -I"$repo/include" "$here/demo.c" %(files)s -o "$dir/demo" -lm || exit 3
cd "$dir"
timeout -s KILL 200 "$dir/demo"
rc=$?
echo "demo: $rc"
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(b):
    d = os.path.join(S, b['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh('git -C /repo status --porcelain -uno').stdout
    for f, old, new in b['edits']:
        p = '/repo/' + f; s = open(p).read()
        n = 0
        if isinstance(old, tuple): old, n = old
        parts = s.split(old)
        assert len(parts) > n + 1, (b['id'], f, old)
        if n == 0 and not b.get('multi'): assert len(parts) == 2, (b['id'], 'ambiguous', len(parts), old)
        s = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
        open(p, 'w').write(s)
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    src = b.get('src', 'demo.c')
    for name, text in b.get('files', {}).items(): open(os.path.join(d, name), 'w').write(text)
    open(os.path.join(d, src), 'w').write((b.get('prelude') or PRELUDE) + b['demo'])
    if 'static' in b:
        t = STATIC_SH % dict(cc=b['static'].get('cc', 'gcc'), cf=b['static']['cf'], files=b['static']['files'], pre=b.get('pre',''))
    else:
        t = DEMO_SH % dict(cc='gcc', cc2='g++ -fpermissive' if src.endswith('.cc') else 'gcc', opts=b.get('opts', ''), dflags=b.get('dflags', ''), src=src, run=b.get('run', ''))
    open(d + '/demo.sh', 'w').write(t); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def demo(b):
    r = sh('cd /repo && bash %s/%s/demo.sh' % (S, b['id'])); return r.returncode, r.stdout[-300:]
def verify(b):
    d = os.path.join(S, b['id'])
    ok, out = demo(b)
    if ok: print(b['id'], 'BAD: demo fails on clean', ok, out); return
    assert not sh('git -C /repo apply %s/patch.diff' % d).returncode
    try:
        r = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/plant/o.json')
        try: j = json.load(open('/tmp/w/plant/o.json')); f = len(j['failed'])
        except Exception as e: f = 'err ' + r.stdout[-300:]
        rc, out = demo(b)
    finally:
        sh('git -C /repo checkout -- .')
    print(b['id'], b['prop'], 'tests failed:', f, 'demo rc:', rc, '' if rc not in (0, 3) and f == 0 else 'BAD ' + out)
ids = sys.argv[2:]
for b in BUGS:
    if ids and b['id'] not in ids: continue
    if 'build' in sys.argv[1]: build(b)
    if 'verify' in sys.argv[1]: verify(b)
sh('bash /opt/vp/build.sh')
