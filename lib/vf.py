"""Driver of the checks: builds the allocator from /repo for a configuration, builds the harnesses,
runs them, and turns what their monitors report into a verdict and an evidence file."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
EVID = os.path.join(VERIF, 'evidence')
HARNESS = os.path.join(VERIF, 'harness')
NPROC = os.cpu_count() or 4
START = time.time()
LIMIT = 20000 if os.environ.get('VERIF_TIER') == 'thorough' else 780      # a check must end by then


class HarnessError(Exception):
    """The machinery could not decide: neither held nor violated."""


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.log = log


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                          timeout=timeout, stdin=subprocess.DEVNULL, **kw)


def clean_env(extra=None):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': '/tmp'}
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e


# ---------------------------------------------------------------- sources and configurations

def source_files():
    r = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'test', 'androidtest') and not d.startswith('out'))
        for f in sorted(files):
            if f.endswith(('.c', '.h', '.cc', '.mk', '.hpp', '.inc')) or f == 'Makefile':
                r.append(os.path.join(root, f))
    return r


_key = None


def tree_key():
    global _key
    if _key is None:
        h = hashlib.sha256()
        for f in source_files():
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _key = h.hexdigest()[:20]
    return _key


def base_config(variant):
    c = {}
    with open(os.path.join(REPO, 'config', variant + '.mk')) as fh:
        for l in fh:
            m = re.match(r'\s*(CONFIG_\w+)\s*:?=\s*([^#\s]+)', l)
            if m:
                c[m.group(1)] = m.group(2)
    return c


class Config:
    def __init__(self, name, variant='default', **over):
        self.name, self.variant = name, variant
        self.label = over.pop('LABEL', False)        # not an option of the makefile: builds for Android that can be debugged define it
        self.over = {('CONFIG_' + k): (str(v).lower() if isinstance(v, bool) else str(v)) for k, v in over.items()}

    def values(self):
        c = base_config(self.variant)
        c.update(self.over)
        return c

    def cf(self):
        """-D CF_* describing the build to the harness"""
        v = self.values()
        b = lambda k: 1 if v['CONFIG_' + k] == 'true' else 0
        n = lambda k: v['CONFIG_' + k]
        return {'CF_EXT': b('EXTENDED_SIZE_CLASSES'), 'CF_LARGE': b('LARGE_SIZE_CLASSES'), 'CF_CANARY': b('SLAB_CANARY'),
                'CF_ZERO': b('ZERO_ON_FREE'), 'CF_WAF': b('WRITE_AFTER_FREE_CHECK'), 'CF_RANDSLOT': b('SLOT_RANDOMIZE'),
                'CF_QR': n('SLAB_QUARANTINE_RANDOM_LENGTH'), 'CF_QQ': n('SLAB_QUARANTINE_QUEUE_LENGTH'),
                'CF_GUARD': n('GUARD_SLABS_INTERVAL'), 'CF_GDIV': n('GUARD_SIZE_DIVISOR'),
                'CF_RQR': n('REGION_QUARANTINE_RANDOM_LENGTH'), 'CF_RQQ': n('REGION_QUARANTINE_QUEUE_LENGTH'),
                'CF_RQSKIP': n('REGION_QUARANTINE_SKIP_THRESHOLD') + 'UL',
                'CF_FSQ': n('FREE_SLABS_QUARANTINE_RANDOM_LENGTH'), 'CF_REGION': n('CLASS_REGION_SIZE') + 'UL',
                'CF_ARENAS': n('N_ARENA'), 'CF_STATS': b('STATS'), 'CF_SEAL': b('SEAL_METADATA'), 'CF_SELFINIT': b('SELF_INIT'),
                'CF_CXX': b('CXX_ALLOCATOR'), **({'CF_LABEL': 1} if self.label else {})}

    def repo_defs(self):
        """the -D the Makefile passes to the sources, for builds of our own"""
        v = self.values()
        m = {'CONFIG_SEAL_METADATA': 'SEAL_METADATA', 'ZERO_ON_FREE': 'ZERO_ON_FREE', 'WRITE_AFTER_FREE_CHECK': 'WRITE_AFTER_FREE_CHECK',
             'SLOT_RANDOMIZE': 'SLOT_RANDOMIZE', 'SLAB_CANARY': 'SLAB_CANARY', 'SLAB_QUARANTINE_RANDOM_LENGTH': 'SLAB_QUARANTINE_RANDOM_LENGTH',
             'SLAB_QUARANTINE_QUEUE_LENGTH': 'SLAB_QUARANTINE_QUEUE_LENGTH', 'CONFIG_EXTENDED_SIZE_CLASSES': 'EXTENDED_SIZE_CLASSES',
             'CONFIG_LARGE_SIZE_CLASSES': 'LARGE_SIZE_CLASSES', 'GUARD_SLABS_INTERVAL': 'GUARD_SLABS_INTERVAL',
             'GUARD_SIZE_DIVISOR': 'GUARD_SIZE_DIVISOR', 'REGION_QUARANTINE_RANDOM_LENGTH': 'REGION_QUARANTINE_RANDOM_LENGTH',
             'REGION_QUARANTINE_QUEUE_LENGTH': 'REGION_QUARANTINE_QUEUE_LENGTH', 'REGION_QUARANTINE_SKIP_THRESHOLD': 'REGION_QUARANTINE_SKIP_THRESHOLD',
             'FREE_SLABS_QUARANTINE_RANDOM_LENGTH': 'FREE_SLABS_QUARANTINE_RANDOM_LENGTH', 'CONFIG_CLASS_REGION_SIZE': 'CLASS_REGION_SIZE',
             'N_ARENA': 'N_ARENA', 'CONFIG_STATS': 'STATS', 'CONFIG_SELF_INIT': 'SELF_INIT'}
        return ['-D%s=%s' % (k, v['CONFIG_' + c]) for k, c in m.items()] + (['-DLABEL_MEMORY'] if self.label else [])

    def key(self):
        return hashlib.sha256(json.dumps([self.variant, self.over] + (['label'] if self.label else []), sort_keys=True).encode()).hexdigest()[:10]


CONFIGS = {}


def config(name, variant='default', **over):
    CONFIGS[name] = Config(name, variant, **over)


config('default')
config('light', 'light')
config('stats', STATS=True)
config('lightstats', 'light', STATS=True)
config('seal', SEAL_METADATA=True)
config('android', N_ARENA=1, STATS=True, SELF_INIT=False)
config('android4', N_ARENA=4, STATS=True, SELF_INIT=False, CLASS_REGION_SIZE=1 << 32, GUARD_SLABS_INTERVAL=1)
config('androidns', N_ARENA=2, STATS=False, SELF_INIT=False)
config('androidq', N_ARENA=1, STATS=True, SELF_INIT=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0)
config('androidc', N_ARENA=1, STATS=True, SELF_INIT=False, SLAB_CANARY=False, EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False)
config('sealstats', SEAL_METADATA=True, STATS=True)
config('noinit', SELF_INIT=False)
config('nilight', 'light', SELF_INIT=False)
config('niseal', SELF_INIT=False, SEAL_METADATA=True)
config('nistats', SELF_INIT=False, STATS=True)
config('niarena1', SELF_INIT=False, N_ARENA=1, GUARD_SLABS_INTERVAL=3)
config('arena1', N_ARENA=1)
config('small', CLASS_REGION_SIZE=1048576)                     # exhaustible size class regions and region table
config('small2', CLASS_REGION_SIZE=4194304, N_ARENA=2)
config('full4', CLASS_REGION_SIZE=4194304, N_ARENA=1)
config('full2', CLASS_REGION_SIZE=2097152, N_ARENA=2)
config('full8l', 'light', CLASS_REGION_SIZE=8388608, N_ARENA=1)
config('arena16', N_ARENA=16, CLASS_REGION_SIZE=4294967296)
config('tsan', CLASS_REGION_SIZE=4294967296, N_ARENA=2, SELF_INIT=False, STATS=True)
config('tsanseal', CLASS_REGION_SIZE=1073741824, N_ARENA=2, SELF_INIT=False, SEAL_METADATA=True)
config('tsan4', CLASS_REGION_SIZE=1073741824, N_ARENA=4, SELF_INIT=False)
config('tsanlight', 'light', CLASS_REGION_SIZE=4294967296, N_ARENA=1, SELF_INIT=False, STATS=True)
config('stats16', N_ARENA=16, CLASS_REGION_SIZE=4294967296, STATS=True)
config('stats1', N_ARENA=1, STATS=True, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0)
config('odd1', CLASS_REGION_SIZE=134217728, N_ARENA=3, GUARD_SLABS_INTERVAL=3, SLOT_RANDOMIZE=False, SLAB_QUARANTINE_RANDOM_LENGTH=3, SLAB_QUARANTINE_QUEUE_LENGTH=5, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1, GUARD_SIZE_DIVISOR=7)
config('odd2', CLASS_REGION_SIZE=67108864, N_ARENA=5, EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False, SLAB_CANARY=False, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=7, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0, STATS=True)
config('label', LABEL=True, STATS=True, CLASS_REGION_SIZE=1073741824, N_ARENA=2)
config('labellight', 'light', LABEL=True, SELF_INIT=False, N_ARENA=3, GUARD_SLABS_INTERVAL=2)
config('labelseal', LABEL=True, SEAL_METADATA=True, EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False, SLAB_CANARY=False, N_ARENA=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)
config('labelandroid', LABEL=True, N_ARENA=1, STATS=True, SELF_INIT=False)
config('mid', CLASS_REGION_SIZE=67108864, N_ARENA=2)

# option matrix of C26: options off, boundary values, and combinations
MATRIX = []


def matrix(name, variant='default', **over):
    MATRIX.append(name)
    config('m_' + name, variant, **over)


_S = 1073741824           # smaller regions, for more runs of slabs
matrix('nozero', ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)
matrix('nowaf', WRITE_AFTER_FREE_CHECK=False)
matrix('noslotrand', SLOT_RANDOMIZE=False)
matrix('nocanary', SLAB_CANARY=False)
matrix('noext', EXTENDED_SIZE_CLASSES=False)
matrix('nolarge', LARGE_SIZE_CLASSES=False)
matrix('noext_nolarge', EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False, SLAB_CANARY=False)
matrix('noq', SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0)
matrix('qr0', SLAB_QUARANTINE_RANDOM_LENGTH=0)
matrix('qq0', SLAB_QUARANTINE_QUEUE_LENGTH=0)
matrix('qr5', SLAB_QUARANTINE_RANDOM_LENGTH=5)
matrix('qr8', SLAB_QUARANTINE_RANDOM_LENGTH=8, SLAB_QUARANTINE_QUEUE_LENGTH=0)
matrix('qq5', SLAB_QUARANTINE_RANDOM_LENGTH=3, SLAB_QUARANTINE_QUEUE_LENGTH=5)
matrix('qhuge', SLAB_QUARANTINE_RANDOM_LENGTH=1024, SLAB_QUARANTINE_QUEUE_LENGTH=1000, N_ARENA=1)
matrix('rqr0', REGION_QUARANTINE_RANDOM_LENGTH=0)
matrix('rqq0', REGION_QUARANTINE_QUEUE_LENGTH=0)
matrix('rq1', REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1)
matrix('rqhuge', REGION_QUARANTINE_RANDOM_LENGTH=65536, REGION_QUARANTINE_QUEUE_LENGTH=65536)
matrix('rqskip0', REGION_QUARANTINE_SKIP_THRESHOLD=0)
matrix('rqskip', REGION_QUARANTINE_SKIP_THRESHOLD=300000)
matrix('fsq0', FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0)
matrix('fsq1', FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1)
matrix('fsqmax', FREE_SLABS_QUARANTINE_RANDOM_LENGTH=65534)
matrix('guard2', GUARD_SLABS_INTERVAL=2)
matrix('guard3', GUARD_SLABS_INTERVAL=3, N_ARENA=1)
matrix('guard1000', GUARD_SLABS_INTERVAL=1000, CLASS_REGION_SIZE=_S)
matrix('gdiv1', GUARD_SIZE_DIVISOR=1)
matrix('gdiv3', GUARD_SIZE_DIVISOR=3)
matrix('gdivmax', GUARD_SIZE_DIVISOR=1000000)
matrix('region_odd', CLASS_REGION_SIZE=3 * 1073741824 + 4096 * 7)
matrix('region_max', CLASS_REGION_SIZE=549755813888, N_ARENA=1)
matrix('arena2', N_ARENA=2)
matrix('arena3', N_ARENA=3)
matrix('arena256', N_ARENA=256, CLASS_REGION_SIZE=1073741824)
matrix('arena255', N_ARENA=255, CLASS_REGION_SIZE=_S, STATS=True)
matrix('seal1', SEAL_METADATA=True, N_ARENA=1, STATS=True)
matrix('sealnoext', SEAL_METADATA=True, EXTENDED_SIZE_CLASSES=False, CLASS_REGION_SIZE=4294967296)
matrix('noinitseal', SELF_INIT=False, SEAL_METADATA=True, STATS=True)
matrix('nocxx', CXX_ALLOCATOR=False)
matrix('native', NATIVE=True)
matrix('label', LABEL=True)
matrix('lightseal', 'light', SEAL_METADATA=True)
matrix('lightq', 'light', SLAB_QUARANTINE_QUEUE_LENGTH=2, WRITE_AFTER_FREE_CHECK=True)
matrix('bare', 'light', ZERO_ON_FREE=False, SLAB_CANARY=False, GUARD_SLABS_INTERVAL=64, N_ARENA=1, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0,
       EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False, SELF_INIT=False)
matrix('full', STATS=True, SEAL_METADATA=True, SLAB_QUARANTINE_RANDOM_LENGTH=4, SLAB_QUARANTINE_QUEUE_LENGTH=4, N_ARENA=7, CLASS_REGION_SIZE=1073741824, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=100, GUARD_SIZE_DIVISOR=5)


def random_config(seed):
    """any accepted combination of options"""
    import random
    r = random.Random(seed)
    b = lambda: r.random() < 0.5
    zero = r.random() < 0.7
    c = dict(ZERO_ON_FREE=zero, WRITE_AFTER_FREE_CHECK=zero and b(), SLOT_RANDOMIZE=b(), SLAB_CANARY=b(), EXTENDED_SIZE_CLASSES=b(), LARGE_SIZE_CLASSES=b(), STATS=b(),
             SEAL_METADATA=r.random() < 0.3, SELF_INIT=b(), CXX_ALLOCATOR=r.random() < 0.8, SLAB_QUARANTINE_RANDOM_LENGTH=r.choice([0, 0, 1, 2, 5, 16]), SLAB_QUARANTINE_QUEUE_LENGTH=r.choice([0, 0, 1, 2, 5, 16]),
             REGION_QUARANTINE_RANDOM_LENGTH=r.choice([0, 1, 3, 64, 256]), REGION_QUARANTINE_QUEUE_LENGTH=r.choice([0, 1, 3, 100, 1024]), REGION_QUARANTINE_SKIP_THRESHOLD=r.choice([0, 4096, 500000, 33554432]),
             FREE_SLABS_QUARANTINE_RANDOM_LENGTH=r.choice([0, 1, 2, 7, 32, 400]), GUARD_SLABS_INTERVAL=r.choice([1, 1, 2, 3, 8, 50]), GUARD_SIZE_DIVISOR=r.choice([1, 2, 3, 10, 4096]),
             CLASS_REGION_SIZE=r.choice([1073741824, 1073741824 * 3 + 4096, 8589934592]), N_ARENA=r.choice([1, 2, 3, 4, 6, 9]))
    return Config('r%d' % seed, r.choice(['default', 'light']), **c)


def lock(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fh = open(path, 'w')
    fcntl.flock(fh, fcntl.LOCK_EX)
    return fh


def prune_builds():
    """keeps the builds of the few most recent trees"""
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('t-')), key=os.path.getmtime)
        for d in ds[:-4]:
            if d != os.path.join(BUILD, 't-' + tree_key()) and time.time() - os.path.getmtime(d) > 900:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def tree_dir():
    d = os.path.join(BUILD, 't-' + tree_key())
    os.makedirs(d, exist_ok=True)
    return d


def build_lib(cfg, cc='gcc', extra_cflags=''):
    """the shared library, by the project's own makefile"""
    d = os.path.join(tree_dir(), 'lib-%s-%s-%s' % (cfg.name, cfg.key(), hashlib.sha256((cc + extra_cflags).encode()).hexdigest()[:6]))
    with lock(d + '.lock'):
        so = find_so(d)
        if so and os.path.exists(os.path.join(d, '.ok')):
            return d, so
        if os.path.exists(os.path.join(d, '.fail')):
            raise BuildError('library does not build with configuration ' + cfg.name, open(os.path.join(d, '.fail')).read())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        args = ['make', '-j4', '-C', REPO, 'OUT=' + d, 'VARIANT=' + cfg.variant, 'CC=' + cc, 'CONFIG_NATIVE=false', 'CONFIG_WERROR=false']
        args += ['%s=%s' % kv for kv in sorted(cfg.over.items())]
        env = clean_env({'CFLAGS': extra_cflags, 'CXXFLAGS': extra_cflags} if extra_cflags else None)
        if cfg.label:
            env['CPPFLAGS'] = '-DLABEL_MEMORY'
        r = sh(args, env=env)
        so = find_so(d)
        if r.returncode or not so:
            open(os.path.join(d, '.fail'), 'w').write(r.stdout)
            raise BuildError('library does not build with configuration ' + cfg.name, r.stdout)
        open(os.path.join(d, '.ok'), 'w').close()
        return d, so


def find_so(d):
    if not os.path.isdir(d):
        return None
    f = [x for x in os.listdir(d) if x.startswith('libhardened_malloc') and x.endswith('.so')]
    return os.path.join(d, f[0]) if f else None


def build_many(f, xs, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, xs))


def build_matrix(cfgs):
    """(configurations that build, [(configuration, error)])"""
    def one(c):
        try:
            build_lib(c)
            return c, None
        except BuildError as e:
            return c, e
    r = build_many(one, cfgs, 4)
    return [c for c, e in r if not e], [(c, e) for c, e in r if e]


def first_error(e):
    l = [x for x in e.log.splitlines() if 'error' in x.lower()]
    return (l or e.log.splitlines() or ['?'])[0][:200]


_hkey = {}


def harness_key():
    if 'k' not in _hkey:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(HARNESS):
            dirs.sort()
            for f in sorted(files):
                with open(os.path.join(root, f), 'rb') as fh:
                    h.update(f.encode() + fh.read())
        _hkey['k'] = h.hexdigest()[:12]
    return _hkey['k']


def build_harness(name, cfg, src=None, flags=(), cc=None, cc_lib='gcc', lib=True, libs=(), lib_cflags=''):
    """a harness linked to the shared library of this configuration"""
    src = src or name + '.c'
    cxx = src.endswith('.cc')
    cc = cc or ('g++' if cxx else 'gcc')
    libdir = so = None
    if lib:
        libdir, so = build_lib(cfg, cc_lib, lib_cflags)
    k = hashlib.sha256(json.dumps([src, list(flags), list(libs), cc, cc_lib, lib, lib_cflags, cfg.cf()]).encode()).hexdigest()[:10]
    exe = os.path.join(tree_dir(), 'h-%s-%s-%s-%s' % (name, cfg.name, k, harness_key()))
    with lock(exe + '.lock'):
        if os.path.exists(exe):
            return exe
        cmd = [cc, '-std=' + ('gnu++17' if cxx else 'gnu17'), '-O2', '-g', '-w', '-fno-builtin', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS]
        if 'clang' not in cc:   # malloc is declared leaf, but interposed calls come back to the harness
            cmd += ['-fno-ipa-reference', '-fno-ipa-reference-addressable', '-fno-ipa-modref']
        if cxx:
            cmd += ['-fsized-deallocation', '-faligned-new']
        cmd += ['-D%s=%s' % kv for kv in cfg.cf().items()]
        cmd += list(flags) + [os.path.join(HARNESS, src), '-o', exe + '.tmp']
        if lib:
            cmd += [so, '-Wl,-rpath,' + libdir]
        cmd += list(libs) + ['-lpthread', '-lm', '-ldl']
        r = sh(cmd, env=clean_env())
        if r.returncode:
            raise BuildError('harness %s does not build' % name, ' '.join(cmd) + '\n' + r.stdout)
        os.rename(exe + '.tmp', exe)
    return exe


def build_static(name, cfg, src=None, san=(), cc='clang', flags=(), harness_flags=None, only=None, cxx_sources=False, extra_src=(), opt='-O1'):
    """the allocator's sources (as h_malloc and so on, beside libc's) and a harness in one instrumented program"""
    src = src or name + '.c'
    k = hashlib.sha256(json.dumps([src, list(san), cc, list(flags), list(harness_flags or ()), opt, cfg.key(), cfg.cf()]).encode()).hexdigest()[:10]
    exe = os.path.join(tree_dir(), 's-%s-%s-%s-%s' % (name, cfg.name, k, harness_key()))
    with lock(exe + '.lock'):
        if os.path.exists(exe):
            return exe
        d = exe + '.d'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        common = [opt, '-g', '-w', '-fno-omit-frame-pointer', '-fno-optimize-sibling-calls', '-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-D_GNU_SOURCE', '-DH_MALLOC_PREFIX', '-pthread'] + list(flags)
        cmds, objs = [], []
        for f in sorted(os.listdir(REPO)):
            if not f.endswith('.c'):
                continue
            o = os.path.join(d, f + '.o')
            objs.append(o)
            cmds.append([cc, '-std=gnu17', '-fno-builtin'] + ([] if '-fsanitize=memory' in san else ['-ftrivial-auto-var-init=zero']) + common + list(san) + cfg.repo_defs() + ['-c', os.path.join(REPO, f), '-o', o])
        ho = os.path.join(d, 'harness.o')
        hf = list(san) if harness_flags is None else list(harness_flags)
        cmds.append([cc, '-std=gnu17', '-fno-builtin'] + common + hf + ['-I' + HARNESS] + ['-D%s=%s' % kv for kv in cfg.cf().items()] + ['-c', os.path.join(HARNESS, src), '-o', ho])
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for c, r in zip(cmds, ex.map(lambda c: sh(c, env=clean_env()), cmds)):
                if r.returncode:
                    raise BuildError('instrumented build of %s fails' % name, ' '.join(c) + '\n' + r.stdout)
        c = [cc] + list(san) + ['-pthread'] + objs + [ho, '-lm', '-ldl', '-o', exe + '.tmp']
        r = sh(c, env=clean_env())
        if r.returncode:
            raise BuildError('instrumented program %s does not link' % name, ' '.join(c) + '\n' + r.stdout)
        os.rename(exe + '.tmp', exe)
        shutil.rmtree(d, ignore_errors=True)
    return exe


def build_droid(cfg, mte):
    """the allocator's sources as for Android, with memory tagging emulated if mte; None if they need more of Android than there is here"""
    k = hashlib.sha256(json.dumps([cfg.key(), cfg.cf(), mte]).encode()).hexdigest()[:10]
    exe = os.path.join(tree_dir(), 'd-%s-%s-%s' % (cfg.name, k, harness_key()))
    with lock(exe + '.lock'):
        if os.path.exists(exe):
            return exe
        d = exe + '.d'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        A = os.path.join(HARNESS, 'android')
        common = ['gcc', '-std=gnu17', '-O2', '-g', '-w', '-fno-builtin', '-fno-ipa-reference', '-fno-ipa-reference-addressable', '-fno-ipa-modref', '-fno-strict-aliasing',
                  '-D__ANDROID__', '-I' + A, '-include', os.path.join(A, 'shim.h'), '-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-DH_MALLOC_PREFIX', '-pthread'] + (['-DHAS_ARM_MTE'] if mte else [])
        inst = ['-fsanitize=kernel-address', '--param', 'asan-stack=0', '--param', 'asan-globals=0', '--param', 'asan-instrumentation-with-call-threshold=0'] if mte else []
        cmds, objs = [], []
        for f in sorted(os.listdir(REPO)):
            if f.endswith('.c'):
                o = os.path.join(d, f + '.o')
                objs.append(o)
                cmds.append(common + inst + cfg.repo_defs() + ['-c', os.path.join(REPO, f), '-o', o])
        ho = os.path.join(d, 'harness.o')
        cmds.append(common + ['-DVF_HARNESS', '-I' + HARNESS] + ['-D%s=%s' % kv for kv in cfg.cf().items()] + ['-c', os.path.join(HARNESS, 'droid.c'), '-o', ho])
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for c, r in zip(cmds, ex.map(lambda c: sh(c, env=clean_env()), cmds)):
                if r.returncode:
                    raise BuildError('build as for Android fails', ' '.join(c) + '\n' + r.stdout)
        c = ['gcc', '-pthread'] + objs + [ho, '-lm', '-ldl', '-o', exe + '.tmp']
        r = sh(c, env=clean_env())
        if r.returncode:
            raise BuildError('build as for Android does not link', ' '.join(c) + '\n' + r.stdout)
        os.rename(exe + '.tmp', exe)
        shutil.rmtree(d, ignore_errors=True)
    return exe


# ---------------------------------------------------------------- running

class Job:
    """one execution of a harness"""

    def __init__(self, label, exe, env=None, args=(), timeout=120, accept=None, expect_exit=True, cfg=None, build=None, hang_ok=False):
        self.label, self.exe, self.env, self.args, self.timeout = label, exe, dict(env or {}), list(args), timeout
        self.cfg = cfg
        self.viols, self.stats, self.samples, self.infos = [], {}, [], []
        self.error = None
        self.rc = None
        self.wall = 0


def cpu_ticks(session):
    """processor time used by the processes of a session"""
    n = 0
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                f = open('/proc/%s/stat' % d).read().rsplit(')', 1)[1].split()
            except (OSError, IndexError):
                continue
            if int(f[3]) == session:
                n += int(f[11]) + int(f[12])
    return n


def run_once(job):
    tmp = tempfile.mkdtemp(prefix='vf-', dir=scratch())
    t0 = time.time()
    env = clean_env(job.env)
    env['VF_TMP'] = tmp
    of = open(os.path.join(tmp, 'stdout'), 'wb')
    ef = open(os.path.join(tmp, 'stderr'), 'wb')
    p = subprocess.Popen([job.exe] + job.args, stdin=subprocess.DEVNULL, stdout=of, stderr=ef, env=env, cwd=tmp, start_new_session=True)
    timed_out = False
    last, rest = None, 0
    while True:
        left = job.timeout - (time.time() - t0)
        try:
            p.wait(max(0.01, min(left, 5)))
            break
        except subprocess.TimeoutExpired:
            pass
        if left <= 0:
            timed_out = True
            break
        # nothing at all happens: a deadlock
        t = cpu_ticks(p.pid)
        rest = rest + 1 if t is not None and last is not None and abs(t - last) < 3 else 0
        last = t
        if rest >= 9:
            timed_out = 'rest'
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    of.close(); ef.close()
    rd = lambda f: open(os.path.join(tmp, f), 'rb').read(4 << 20).decode('utf-8', 'replace')
    out, err = rd('stdout'), rd('stderr')
    for f in sorted(os.listdir(tmp)):     # logs of the sanitizers, one for each process
        if f.startswith('san.'):
            err += rd(f)
    shutil.rmtree(tmp, ignore_errors=True)
    job.wall = time.time() - t0
    return p.returncode, out, err, timed_out


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(OUT, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run-', dir=OUT)
    return _scratch


def sanitizer_reports(err):
    """the distinct reports of the sanitizers in this output"""
    r = []
    lines = err.splitlines()
    for i, l in enumerate(lines):
        t = None
        if 'WARNING: ThreadSanitizer' in l or 'ERROR: AddressSanitizer' in l or 'WARNING: MemorySanitizer' in l or 'ERROR: ThreadSanitizer' in l:
            fr = [re.sub(r'^\s*#(\d+) (?:0x\S+ in )?(\S+) (\S+).*', r'\2 \3', x) for x in lines[i + 1:i + 40] if re.match(r'\s*#[01] ', x)]
            t = re.sub(r'\(pid=\d+\)|==\d+==|0x[0-9a-f]+', '', l).strip() + ': ' + ', '.join(f.replace(REPO + '/', '') for f in fr[:4])
        elif ': runtime error: ' in l:
            t = re.sub(r'0x[0-9a-f]+', '#', l).replace(REPO + '/', '')
        if t and t not in r:
            r.append(t)
    return r[:20]


def run_job(job, prop, acc=()):
    job.env.setdefault('VF_PROP', ','.join(sorted(acc or {prop})))
    for attempt in (1, 2, 3):
        rc, out, err, timed_out = run_once(job)
        if timed_out is True and attempt < 3 and time.time() - START + job.timeout * 1.5 < LIMIT:
            # a loaded machine is not a hang: try again with more time
            job.timeout *= 1.5
            continue
        if rc == -signal.SIGKILL and not timed_out and attempt == 1:
            continue
        break
    job.rc, job.out, job.err = rc, out, err
    job.viols, job.stats, job.samples, job.infos, job.cov = [], {}, [], [], {}
    crash = None
    for l in out.splitlines():
        if l.startswith('VIOL '):
            _, p, text = l.split(' ', 2)
            job.viols.append((p, text))
        elif l.startswith('STAT '):
            f = l.split()
            job.stats[f[1]] = job.stats.get(f[1], 0) + int(f[2])
        elif l.startswith('SAMPLE '):
            job.samples.append(l[7:])
        elif l.startswith('COV '):
            f = l.split()
            job.cov[f[1], int(f[2])] = job.cov.get((f[1], int(f[2])), 0) | int(f[3], 16)
        elif l.startswith('INFO '):
            job.infos.append(l[5:])
        elif l.startswith('HARNESS-ERROR '):
            job.error = l[14:]
        elif l.startswith('CRASH '):
            crash = l[6:]
    finished = job.stats.pop('finished', 0)
    for t in sanitizer_reports(err):
        job.viols.append((prop, t))
    if job.error and not job.viols:
        return job
    if timed_out:
        job.viols.append((prop, 'workload rests forever (deadlock)' if timed_out == 'rest' else 'workload did not end within %.0f s (hang)' % job.timeout))
    elif not finished and rc == -signal.SIGKILL:
        job.error = 'killed from outside'
    elif not finished and not (rc == 1 and job.viols):
        msg = [l for l in err.splitlines() if l.strip()]
        fe = [l for l in msg if 'fatal allocator error' in l or 'ERROR:' in l or 'runtime error' in l or 'WARNING: ThreadSanitizer' in l]
        job.viols.append((prop, 'valid workload stopped: %s%s%s' % (
            'signal %d' % -rc if rc < 0 else 'exit %d' % rc, '; ' + crash if crash else '', '; ' + (fe or msg)[0][:300] if msg else '')))
    return job


class Accept:
    """which findings count for a property: its own, those of the properties listed, and of (property, regex) pairs those that match"""
    def __init__(self, prop, accept=None):
        self.whole = {prop} | {a for a in accept or () if isinstance(a, str)}
        self.some = [(a[0], re.compile(a[1])) for a in accept or () if not isinstance(a, str)]

    def names(self):
        return self.whole | {p for p, _ in self.some}

    def __contains__(self, v):
        p, text = v
        return p in self.whole or '*' in self.whole or any(p == q and rx.search(text) for q, rx in self.some)


def run_jobs(jobs, prop, workers=None, accept=()):
    """runs them all, or until a violation is found"""
    workers = workers or NPROC
    acc = Accept(prop, accept)
    known = known_findings(prop)
    found = []

    def one(j):
        if found:
            return None
        run_job(j, prop, acc.names())
        if any((p, t) in acc and not any(rx.search(t) for rx, _ in known) for p, t in j.viols):
            found.append(j)
        return j
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return [j for j in ex.map(one, jobs) if j]


# ---------------------------------------------------------------- verdict

def known_findings(prop):
    r = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as fh:
            for l in fh:
                m = re.match(r'known:\s+property=(\S+)\s+match=/(.*)/\s+(.*)', l)
                if m and m.group(1) == prop:
                    r.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return r


class Result:
    def __init__(self, prop, level='exploration'):
        self.prop, self.level = prop, level
        self.covered = {}
        self.viols = []          # (text, replay info)
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}
        self.stats = {}
        self.skipped = []
        self.assumptions = []
        self.jobs = 0

    def add(self, jobs, accept=None, evals='evals', distinct='distinct'):
        """accept: other properties' findings that also count for this one"""
        acc = Accept(self.prop, accept)
        for j in jobs:
            self.jobs += 1
            if j.error and not j.viols:
                raise HarnessError('%s: %s' % (j.label, j.error))
            seen = set()
            for p, text in j.viols:
                if (p, text) in acc:
                    sig = re.sub(r'0x[0-9a-f]+|\d+', '#', text)
                    if sig in seen:
                        continue
                    seen.add(sig)
                    self.viols.append(('%s: %s%s' % (j.label, '' if p == self.prop else '(%s) ' % p, text),
                                       {'label': j.label, 'exe': j.exe, 'args': j.args, 'env': j.env, 'config': j.cfg.name if j.cfg else None,
                                        'config_values': j.cfg.values() if j.cfg else None, 'stdout_tail': j.out[-3000:], 'stderr_tail': j.err[-3000:]}))
            for k, v in j.stats.items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.cov['evaluations'] += j.stats.get(evals, 0)
            self.cov['distinct_nontrivial'] += j.stats.get(distinct, 0)
            for k, m in j.cov.items():
                new = m & ~self.covered.get(k, 0)
                self.covered[k] = self.covered.get(k, 0) | m
                self.cov['distinct_nontrivial'] += bin(new).count('1')
            for s in j.samples[:2]:
                if len(self.cov['samples']) < 12:
                    self.cov['samples'].append('%s: %s' % (j.label, s))

    def run(self, jobs, accept=None):
        if not self.viols:
            self.add(run_jobs(jobs, self.prop, accept=accept), accept)

    def violation(self, text, info=None):
        self.viols.append((text, info or {}))

    def require(self, key, n):
        """the monitors must have observed something"""
        if self.stats.get(key, 0) < n and not self.viols:
            raise HarnessError('only %d of %s observed, expected at least %d' % (self.stats.get(key, 0), key, n))


def finish(res, tier, seed, t0):
    known = known_findings(res.prop)
    new, hit = [], set()
    for text, info in res.viols:
        for rx, desc in known:
            if rx.search(text):
                hit.add(desc)
                break
        else:
            new.append((text, info))
    for _, d in known:
        print('KNOWN-FINDING: property=%s %s%s' % (res.prop, d, '' if d in hit else ' (not seen in this run)'))
    cov = dict(res.cov)
    cov['runs'] = res.jobs
    cov['observed'] = {k: v for k, v in sorted(res.stats.items()) if k not in ('evals', 'distinct')}
    if res.skipped:
        cov['skipped'] = res.skipped
    if not cov['samples']:
        cov['samples'] = ['(no sample recorded)']
    ev = {'property': res.prop, 'tier': tier, 'seed': seed, 'level': res.level, 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new), 'assumptions': res.assumptions}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d.tmp' % (res.prop, os.getpid()))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, os.path.join(EVID, res.prop + '.json'))
    if new:
        rd = os.path.join(OUT, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s-%s-%d.json' % (res.prop, tree_key()[:8], seed))
        with open(rp, 'w') as fh:
            json.dump({'property': res.prop, 'seed': seed, 'tier': tier, 'violations': [{'text': t, 'replay': i} for t, i in new[:30]]}, fh, indent=1)
        for t, _ in new[:8]:
            print('  ' + t)
        print('VIOLATION property=%s replay=%s' % (res.prop, rp))
        return 1
    print('held: property=%s evaluations=%d distinct=%d runs=%d wall=%.1fs' % (res.prop, cov['evaluations'], cov['distinct_nontrivial'], res.jobs, time.time() - t0))
    return 0


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
