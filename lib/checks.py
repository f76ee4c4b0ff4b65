"""What each check runs. See DESIGN.md for what the monitors decide."""
import os
import vf
from vf import CONFIGS, Job, build_harness

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def jobs_for(harness, cfgs, envs, seed, timeout=120, label=None, **kw):
    """one job per configuration and environment"""
    out = []
    for c in cfgs:
        cfg = CONFIGS[c]
        exe = build_harness(harness, cfg, **kw)
        for i, e in enumerate(envs):
            env = {'VF_SEED': seed * 1000 + i}
            env.update(e)
            out.append(Job('%s/%s/%s' % (harness, c, ','.join('%s=%s' % (k[3:].lower(), v) for k, v in env.items())), exe, env, timeout=timeout, cfg=cfg))
    return out


# ---------------------------------------------------------------- random histories against the model

MODEL_RULE = ('operations (allocate by any entry point, realloc, free by any entry point, size query, trim, hand-over between threads) of random '
              'histories checked against the reference model; distinct: different (entry point, size class before, size class or alignment after) seen in a run')

PROFILES = [('mixed', 150000, {}), ('small', 400000, {}), ('churn', 120000, {}), ('maligned', 100000, {}), ('large', 8000, {'VF_CAP': 256}), ('1', 300000, {})]


def model_envs(seed, threads=(1,), scale=1.0, profiles=None, reps=1):
    r = []
    i = 0
    for rep in range(reps):
        for t in threads:
            for name, ops, extra in PROFILES:
                if profiles and name not in profiles:
                    continue
                i += 1
                e = {'VF_SEED': seed * 1000 + i, 'VF_PROFILE': name, 'VF_OPS': int(ops * scale), 'VF_THREADS': t}
                e.update(extra)
                r.append(e)
    return r


def model(res, tier, seed, cfgs, threads=(1,), profiles=None, accept=None, scale=1.0, thorough=8):
    deep = thorough if tier == 'thorough' else 1
    jobs = jobs_for('model', cfgs, model_envs(seed, threads, scale, profiles, deep), seed, timeout=200)
    res.cov['rule'] = MODEL_RULE
    res.run(jobs, accept)
    res.require('evals', 10000)


@check('C01')
def c01(res, tier, seed):
    model(res, tier, seed, ['default', 'light'], (1, 8))
    model(res, tier, seed, ['arena1', 'seal'], (4,), ['mixed', 'churn'])


@check('C02')
def c02(res, tier, seed):
    # what realloc returns is at least of the new size, aligned and accessible
    model(res, tier, seed, ['default', 'light'], (1, 4), accept=[(p, 'realloc') for p in ('C01', 'C21', 'C22')])
    k = 6 if tier == 'thorough' else 2
    res.run(jobs_for('oom', ['default', 'light', 'seal', 'm_noext_nolarge'], [{'VF_MODE': 'c16', 'VF_OPS': 0, 'VF_LEAKS': 0, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300))
    res.require('very_large_moves', 200)
    res.require('realloc_moved', 1000)
    res.require('realloc_in_place', 1000)


@check('C03')
def c03(res, tier, seed):
    model(res, tier, seed, ['default', 'light', 'm_nozero'], (1, 8))
    model(res, tier, seed, ['m_bare', 'm_noext_nolarge'], (1,), ['mixed', 'small', 'maligned'])
    res.require('fresh_bytes_checked', 1 << 20)


@check('C04')
def c04(res, tier, seed):
    model(res, tier, seed, ['default', 'light'], (1,), thorough=16)
    k = 6 if tier == 'thorough' else 1
    res.run(jobs_for('oom', ['default', 'light', 'm_rq1', 'm_noq'], [{'VF_MODE': 'c16', 'VF_OPS': 8000, 'VF_SEED': seed * 100 + i} for i in range(2 * k)], seed, timeout=300))
    res.require('released_with_refusals', 500)
    res.require('scrubbed_bytes_checked', 1 << 20)


# ---------------------------------------------------------------- misuse

MISUSE_RULE = ('child processes that misuse the API in a random heap state (and controls that use it properly), each judged by how the process ends; '
               'distinct: different (kind of misuse, entry point, size class) combinations seen in a run')


def misuse(res, tier, seed, mode, cfgs, rounds, reps):
    if tier == 'thorough':
        rounds, reps = rounds * 3, reps * 4
    res.cov['rule'] = MISUSE_RULE
    envs = [{'VF_MODE': mode, 'VF_ROUNDS': rounds, 'VF_SEED': seed * 100 + i} for i in range(reps)]
    res.run(jobs_for('misuse', cfgs, envs, seed, timeout=250))
    res.require('fatal_errors', 500)


@check('C05')
def c05(res, tier, seed):
    misuse(res, tier, seed, 'c05', ['default', 'light', 'mid'], 1200, 3)
    misuse(res, tier, seed, 'c05', ['seal', 'stats', 'arena1'], 500, 1)
    res.require('valid_controls', 500)


@check('C06')
def c06(res, tier, seed):
    misuse(res, tier, seed, 'c06', ['default', 'light', 'stats'], 2500, 3)
    res.run(cxx_jobs(['default', 'light', 'arena1'], seed, 4 if tier == 'thorough' else 1, VF_OPS=2000, VF_MISMATCH=4000))
    res.require('sized_mismatches', 9000)


@check('C07')
def c07(res, tier, seed):
    misuse(res, tier, seed, 'c07', ['default', 'light', 'mid'], 2000, 3)
    model(res, tier, seed, ['default'], (1, 4), ['mixed', 'small', 'churn'], scale=0.5)
    res.require('canaries_of_slabs', 1000)


@check('C08')
def c08(res, tier, seed):
    misuse(res, tier, seed, 'c08', ['default', 'mid', 'arena1'], 2500, 3)
    model(res, tier, seed, ['default'], (1, 8), ['mixed', 'small', 'churn'], scale=0.5)
    res.require('detected', 1000)


# ---------------------------------------------------------------- failures

@check('C16')
def c16(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    res.level = 'fault_enumeration'
    res.cov['rule'] = ('operations on a random heap with kernel calls made to fail (single, several, all from one on, one kind), and allocations up to a real limit; '
                       'distinct: (operation, number of failed calls), (operation, size class), (kernel call, plan) and (limit, size class) combinations in which a failure was injected or met')
    jobs = jobs_for('oom', ['default', 'light'], [{'VF_MODE': 'c16', 'VF_OPS': 9000 * (3 if k > 1 else 1), 'VF_SEED': seed * 100 + i} for i in range(3 * k)], seed, timeout=300)
    jobs += jobs_for('oom', ['mid', 'stats', 'seal', 'arena1', 'labellight'], [{'VF_MODE': 'c16', 'VF_OPS': 6000 * (3 if k > 1 else 1), 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += jobs_for('oom', ['default', 'light', 'small', 'seal', 'stats'], [{'VF_MODE': 'limits', 'VF_OPS': 4, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += jobs_for('oom', ['small', 'small2'], [{'VF_MODE': 'limits', 'VF_OPS': 6, 'VF_SEED': seed * 100 + 50 + i} for i in range(2 * k)], seed, timeout=300)
    # live allocations stay intact, and realloc that fails changes nothing: the same oracles as for these properties
    res.run(jobs, accept=['C01', 'C02'])
    res.require('ops_with_injected_failures', 2000)
    res.require('nulls', 2000)


@check('C17')
def c17(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    res.level = 'fault_enumeration'
    res.cov['rule'] = ('child processes in which one kernel call of the allocator fails with an error other than ENOMEM, or which misuse the API, with six kinds of disturbed writes of the report; '
                       'distinct: (kernel call, errno) and (kernel call, way of writing) combinations injected')
    jobs = jobs_for('oom', ['default', 'light', 'stats', 'seal'], [{'VF_MODE': 'c17', 'VF_OPS': 1200, 'VF_SEED': seed * 100 + i} for i in range(2 * k)], seed, timeout=300)
    res.run(jobs)
    for c in ('mmap', 'mmap(MAP_FIXED)', 'munmap', 'mprotect', 'mremap', 'madvise'):
        res.require('fatal.' + c, 50)
    res.require('misuse_reports', 500)


@check('C28')
def c28(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    res.level = 'fault_enumeration'
    res.cov['rule'] = MODEL_RULE + '; and the same with kernel calls made to fail'
    jobs = jobs_for('oom', ['default', 'light'], [{'VF_MODE': 'c16', 'VF_OPS': 9000, 'VF_SEED': seed * 100 + i} for i in range(3 * k)], seed, timeout=300)
    jobs += jobs_for('oom', ['small', 'default'], [{'VF_MODE': 'limits', 'VF_OPS': 3, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += cxx_jobs(['default', 'light', 'label'], seed, k, VF_OPS=20000, VF_MISMATCH=0)
    jobs += jobs_for('label', ['label', 'labellight', 'labelseal'], [{'VF_LABELS': 0, 'VF_SEED': seed * 100 + i} for i in range(k)], seed)
    jobs += jobs_for('oom', ['label'], [{'VF_MODE': 'c16', 'VF_OPS': 6000, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    res.run(jobs)
    model(res, tier, seed, ['default', 'light', 'mid'], (1, 4), ['mixed', 'churn', 'maligned', 'large'], scale=0.5)
    res.require('ops_with_injected_failures', 2000)


# ---------------------------------------------------------------- address space

SPACE_RULE = ('operations and probes on the address space of the allocator in workloads built to drive one size class, arena or the large allocator at a time; '
              'distinct: different (situation, size class) combinations seen')


def space_jobs(mode, cfgs, ops, seed, n=1):
    return jobs_for('space', cfgs, [{'VF_MODE': mode, 'VF_OPS': ops, 'VF_SEED': seed * 100 + i} for i in range(n)], seed, timeout=300)


@check('C09')
def c09(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    jobs = space_jobs('reuse', ['default', 'light', 'stats', 'arena1', 'mid', 'seal'], 2, seed, k)
    jobs += space_jobs('reuse', ['default'], 2, seed + 500, k)
    jobs += space_jobs('foot', ['default', 'light', 'mid'], 2 * k, seed)
    # no quarantine withholds more than its length: what large allocations leave reserved after it
    res.run(jobs, accept=[('C19', r'large.*stay reserved|left the quarantine')])
    model(res, tier, seed, ['default', 'mid'], (1,), ['mixed', 'small', 'churn'], scale=0.5)
    res.cov['rule'] = SPACE_RULE
    res.require('reuses_seen', 100000)
    res.require('large_probes', 10000)


@check('C10')
def c10(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    jobs = space_jobs('guard', ['default', 'light', 'stats', 'arena1', 'mid', 'seal'], 3, seed, 2 * k)
    jobs += jobs_for('layout', ['default', 'light'], [{'VF_OPS': 100 * min(k, 4)}], seed, timeout=200)
    jobs += space_jobs('full', ['full4', 'full2', 'full8l'], 4, seed, k)
    res.run(jobs)
    model(res, tier, seed, ['default', 'light'], (1, 4), ['mixed', 'maligned', 'large'], scale=0.5)
    res.cov['rule'] = SPACE_RULE
    res.require('slab_runs_checked', 10000)
    res.require('large_guards', 1000)


@check('C11')
def c11(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    jobs = space_jobs('arena', ['default', 'light', 'arena16', 'arena1', 'stats'], 2, seed, k)
    jobs += space_jobs('full', ['full4', 'full2'], 25, seed, k) + space_jobs('full', ['full8l'], 8, seed, k)
    res.run(jobs)
    model(res, tier, seed, ['default', 'arena16', 'arena1', 'mid'], (8,), ['mixed', 'small'], scale=0.5)
    res.cov['rule'] = SPACE_RULE
    res.require('addresses_placed', 100000)
    res.require('regions_filled', 3000)
    res.require('returned_to_their_arena', 50000)


@check('C12')
def c12(res, tier, seed):
    k = 4 if tier == 'thorough' else 1
    jobs = jobs_for('layout', ['default', 'light', 'arena1', 'seal', 'mid', 'stats'], [{'VF_OPS': 160, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=200)
    res.run(jobs)
    res.cov['rule'] = ('positions, slots, canaries and guard sizes compared between and within many processes; '
                       'distinct: different (quantity, size class) combinations compared')
    res.require('processes', 500)
    res.require('canaries', 50000)


def whitebox(harness, tag, flags, sources):
    """a harness that includes internal headers: None when the sources were reorganized so that it doesn't build"""
    try:
        return build_harness(harness + '', vf.Config(tag), src=harness + '.c', lib=False,
                             flags=['-I' + vf.REPO, '-I' + os.path.join(vf.REPO, 'include')] + list(flags) + [os.path.join(vf.REPO, s) for s in sources])
    except vf.BuildError:
        return None


@check('C13')
def c13(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    jobs = []
    exe = whitebox('rng', 'wb', [], ['random.c', 'chacha.c', 'util.c'])
    if exe:
        for i in range(2 * k):
            jobs += [Job('rng/%s/%d' % (m, i), exe, {'VF_MODE': m, 'VF_OPS': n, 'VF_SEED': seed * 100 + i}, timeout=200) for m, n in (('stream', 6), ('u64', 100000), ('fail', 10))]
    stub = whitebox('rng', 'stub', ['-DVF_STUB'], ['random.c', 'util.c'])
    if stub:
        jobs += [Job('rng/u16/%d' % i, stub, {'VF_PART': i, 'VF_PARTS': 16}, timeout=300) for i in range(16)]
    if not exe or not stub:
        res.skipped.append('white-box part: the generator is no longer in random.c, chacha.c and util.c with the same functions')
    jobs += jobs_for('rngbb', ['default', 'light', 'arena1', 'stats'], [{'VF_OPS': 1 + (k > 1), 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    res.run(jobs)
    res.cov['rule'] = ('values, keystream blocks, bounds and seed bits checked; distinct: different bits of the seed flipped, stream positions and bounds')
    res.require('seed_bits_flipped', 200)


@check('C19')
def c19(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    jobs = space_jobs('foot', ['default', 'light', 'arena1', 'mid', 'stats', 'seal'], 4, seed, 2 * k)
    jobs += space_jobs('reuse', ['default', 'light'], 2, seed, k)
    jobs += jobs_for('oom', ['small', 'small2', 'light'], [{'VF_MODE': 'limits', 'VF_OPS': 4, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += jobs_for('oom', ['default', 'light', 'mid', 'seal'], [{'VF_MODE': 'c16', 'VF_OPS': 0, 'VF_MOVES': 0, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    res.run(jobs)
    res.cov['rule'] = SPACE_RULE
    res.require('leak_tests', 100)
    res.require('footprint_measurements', 3000)
    res.require('trim_returned_1', 100)
    res.require('trim_returned_0', 50)


# ---------------------------------------------------------------- size queries

SIZES_RULE = ('requests, queries and operations judged; distinct: different (entry point, size class before, size class or alignment after), '
              '(entry point or alignment, size class) combinations seen')


def sizes_jobs(tier, seed, cfgs):
    k = 6 if tier == 'thorough' else 1
    return jobs_for('sizes', cfgs, [{'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=200)


@check('C21')
def c21(res, tier, seed):
    res.run(sizes_jobs(tier, seed, ['default', 'light', 'arena1', 'mid', 'seal', 'stats']))
    model(res, tier, seed, ['default', 'light', 'mid'], (1, 4))
    model(res, tier, seed, ['arena1', 'stats'], (2,), ['mixed', 'maligned'])
    res.cov['rule'] = SIZES_RULE
    res.require('interior_offsets', 1000000)
    res.require('queries_with_locks_held', 100000)


@check('C22')
def c22(res, tier, seed):
    res.run(sizes_jobs(tier, seed, ['default', 'light', 'arena1', 'mid', 'seal', 'stats']))
    model(res, tier, seed, ['default', 'light'], (1, 2))
    model(res, tier, seed, ['mid', 'seal'], (1,), ['mixed', 'maligned', 'large'])
    res.cov['rule'] = SIZES_RULE


# ---------------------------------------------------------------- C++ operators

def cxx_jobs(cfgs, seed, n=1, lib_cflags='', **env):
    envs = [dict(env, VF_SEED=seed * 100 + i) for i in range(n)]
    return jobs_for('cxx', cfgs, envs, seed, timeout=300, flags=[os.path.join(vf.HARNESS, 'cxxops.cc'), '-fsized-deallocation'], libs=['-lstdc++'], lib_cflags=lib_cflags)


@check('C24')
def c24(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    jobs = cxx_jobs(['default', 'light', 'seal', 'arena1', 'stats', 'noinit', 'mid'], seed, k, VF_OPS=40000, VF_MISMATCH=500)
    jobs += cxx_jobs(['m_noext_nolarge', 'm_nolarge', 'label'], seed, k, VF_OPS=20000, VF_MISMATCH=200)
    jobs += cxx_jobs(['default', 'light'], seed + 700, 2 * k, VF_OPS=30000, VF_MISMATCH=100, VF_THREADS=16)
    res.run(jobs)
    res.cov['rule'] = ('operators called, with their memory, exceptions and calls of the new-handler judged; '
                       'distinct: (form of new, size class), (form of delete, alignment), (failing form, kind of failure, behaviour of the handler) and (sized delete, class) combinations')
    res.require('failing_news', 4000)
    res.require('handler_calls', 10000)
    res.require('sized_mismatches', 2000)


# ---------------------------------------------------------------- undefined behaviour

SAN_ENV = {'UBSAN_OPTIONS': 'log_path=san:print_stacktrace=0', 'MSAN_OPTIONS': 'log_path=san',
           'ASAN_OPTIONS': 'log_path=san:halt_on_error=0:detect_leaks=0:allow_user_poisoning=1:handle_segv=0:detect_stack_use_after_return=1'}
UBSAN_LIB = '-fsanitize=undefined,float-divide-by-zero -fno-sanitize=vptr'


def ub(jobs):
    """these jobs on libraries built with UndefinedBehaviorSanitizer: its reports are violations"""
    for j in jobs:
        j.env.update(SAN_ENV)
        j.label = 'ubsan/' + j.label
    return jobs


def ub_jobs(harness, cfgs, envs, seed, timeout=300, **kw):
    return ub(jobs_for(harness, cfgs, envs, seed, timeout=timeout, lib_cflags=UBSAN_LIB, **kw))


def san_job(kind, cfg, env):
    flags = {'asan': ['-fsanitize=address,undefined,float-divide-by-zero'], 'msan': ['-fsanitize=memory']}[kind]
    exe = vf.build_static('san', CONFIGS[cfg], san=flags, harness_flags=['-DVF_' + kind.upper()] + (flags if kind == 'msan' else []), flags=['-fsanitize-recover=all'] if kind == 'asan' else [])
    return Job('%s/san/%s/%s' % (kind, cfg, ','.join('%s=%s' % (k[3:].lower(), v) for k, v in env.items())), exe, dict(env, **SAN_ENV), timeout=300, cfg=CONFIGS[cfg])


@check('C25')
def c25(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        s = seed * 100 + i
        for c in ('default', 'light', 'tsan', 'seal', 'mid', 'noinit', 'small', 'odd1', 'odd2'):
            jobs.append(san_job('asan', c, {'VF_OPS': 200000, 'VF_SEED': s}))
            jobs.append(san_job('asan', c, {'VF_OPS': 60000, 'VF_THREADS': 4, 'VF_SEED': s}))
        for c in ('mid', 'tsan', 'small', 'tsan4', 'odd2'):
            jobs.append(san_job('msan', c, {'VF_OPS': 200000, 'VF_SEED': s}))
        jobs += ub_jobs('model', ['default', 'light', 'seal', 'mid', 'stats', 'odd1', 'odd2'], [dict(e, VF_SEED=s) for e in model_envs(seed, (1, 4), 0.3, ['mixed', 'maligned', 'churn'])], seed)
        jobs += ub_jobs('model', ['default', 'light'], model_envs(seed + i, (1,), 0.3), seed)
        # long quarantines, other guard sizes: other arguments for the random numbers, other array sizes
        jobs += ub_jobs('model', ['m_qr5', 'm_qr8', 'm_qhuge', 'm_rqhuge', 'm_noq'], [{'VF_PROFILE': 'mixed', 'VF_OPS': 40000, 'VF_SEED': s}, {'VF_PROFILE': 'small', 'VF_OPS': 40000, 'VF_THREADS': 3, 'VF_SEED': s}], seed)
        for m in ('c05', 'c06', 'c07', 'c08'):
            jobs += ub_jobs('misuse', ['default', 'light', 'odd1'], [{'VF_MODE': m, 'VF_ROUNDS': 400, 'VF_SEED': s}], seed)
        jobs += ub_jobs('oom', ['default', 'light', 'small'], [{'VF_MODE': 'c16', 'VF_OPS': 3000, 'VF_SEED': s}], seed)
        jobs += ub_jobs('oom', ['default', 'seal'], [{'VF_MODE': 'c17', 'VF_OPS': 300, 'VF_SEED': s}], seed)
        jobs += ub_jobs('oom', ['small', 'small2', 'default'], [{'VF_MODE': 'limits', 'VF_OPS': 2, 'VF_SEED': s}], seed)
        jobs += ub_jobs('space', ['default', 'light', 'mid'], [{'VF_MODE': m, 'VF_OPS': 1, 'VF_SEED': s} for m in ('reuse', 'foot', 'guard')], seed)
        jobs += ub_jobs('space', ['default', 'light', 'arena16'], [{'VF_MODE': 'arena', 'VF_OPS': 1, 'VF_SEED': s}], seed)
        jobs += ub_jobs('sizes', ['default', 'light', 'mid'], [{'VF_SEED': s}], seed)
        jobs += ub_jobs('forkt', ['default', 'light'], [{'VF_MODE': 'busy', 'VF_OPS': 30, 'VF_SEED': s}], seed)
        jobs += ub_jobs('stats', ['stats', 'lightstats'], [{'VF_THREADS': 4, 'VF_FAULT': 1, 'VF_SEED': s}], seed)
        jobs += ub_jobs('mt', ['default', 'light'], [{'VF_OPS': 5000, 'VF_THREADS': 12, 'VF_SEED': s}], seed)
        jobs += ub_jobs('state', ['default', 'seal'], [{'VF_OPS': 10000, 'VF_SEED': s}], seed)
        jobs += ub_jobs('first', ['default', 'noinit', 'seal'], [{'VF_SEED': s}], seed)
        jobs += ub(cxx_jobs(['default', 'light', 'seal'], s, VF_OPS=10000, VF_MISMATCH=300, lib_cflags=UBSAN_LIB))
    res.run(jobs)
    res.cov['rule'] = ('operations executed by allocators built with UndefinedBehaviorSanitizer, with AddressSanitizer while all live objects are closed to the allocator, and with MemorySanitizer '
                       'while their contents are undefined; distinct: those of the harnesses (entry point, size class before, size class or alignment after; kinds of misuse; failed calls)')
    res.require('objects_closed', 500000)
    res.require('fatal_errors', 2000)


# ---------------------------------------------------------------- build options

def matrix_jobs(cfg, seed, scale, heavy):
    """what is run on a configuration; the harnesses adapt what they expect to it"""
    v = {k[7:]: x for k, x in cfg.values().items()}
    n = lambda k: int(v[k])
    on = lambda k: v[k] == 'true'
    many = max(n('SLAB_QUARANTINE_RANDOM_LENGTH'), n('SLAB_QUARANTINE_QUEUE_LENGTH')) > 100      # too much memory is quarantined to use all of it up
    todo = [('model', {'VF_PROFILE': p, 'VF_OPS': int(o * scale), 'VF_THREADS': t}) for p, o, t in (('mixed', 40000, 1), ('maligned', 30000, 1), ('churn', 20000, 4), ('small', 40000, 3))]
    todo += [('misuse', {'VF_MODE': m, 'VF_ROUNDS': int((40 if n('N_ARENA') > 100 else 150) * scale)}) for m in ('c05', 'c06', 'c07', 'c08') if not (m in ('c07', 'c08') and many) and not (m == 'c08' and not on('WRITE_AFTER_FREE_CHECK'))]
    todo += [('oom', {'VF_MODE': 'c16', 'VF_OPS': int(1500 * scale)}), ('state', {'VF_OPS': 5000}), ('mt', {'VF_OPS': int(3000 * scale)}), ('forkt', {'VF_MODE': 'busy', 'VF_OPS': 8})]
    if not many:
        todo.append(('sizes', {}))
        if heavy:
            todo += [('space', {'VF_MODE': m, 'VF_OPS': 1}) for m in ('reuse', 'guard', 'foot', 'arena')
                     if not (m == 'arena' and n('N_ARENA') > 60) and not (m in ('reuse', 'foot') and max(n('REGION_QUARANTINE_RANDOM_LENGTH'), n('REGION_QUARANTINE_QUEUE_LENGTH'), n('FREE_SLABS_QUARANTINE_RANDOM_LENGTH')) > 5000)]
        else:
            todo.append(('space', {'VF_MODE': 'guard', 'VF_OPS': 1}))
    if on('STATS'):
        todo.append(('stats', {'VF_THREADS': 3, 'VF_EACH': 1500, 'VF_OPS': 1500, 'VF_ROUNDS': 6}))
    if on('CXX_ALLOCATOR'):
        todo.append(('cxx', {'VF_OPS': 4000, 'VF_MISMATCH': 40}))
    jobs = []
    for h, env in todo:
        kw = dict(flags=[os.path.join(vf.HARNESS, 'cxxops.cc'), '-fsized-deallocation'], libs=['-lstdc++']) if h == 'cxx' else {}
        e = dict(env, VF_SEED=seed)
        j = Job('%s/%s/%s' % (h, cfg.name, ','.join('%s=%s' % (k[3:].lower(), x) for k, x in e.items())), build_harness(h, cfg, **kw), e, timeout=240, cfg=cfg)
        jobs.append(j)
    return jobs


@check('C26')
def c26(res, tier, seed):
    thorough = tier == 'thorough'
    cfgs = [CONFIGS['m_' + n] for n in vf.MATRIX]
    cfgs += [vf.random_config(seed * 1000 + i) for i in range(60 if thorough else 10)]
    built, failed = vf.build_matrix(cfgs)
    for c, e in failed:
        res.violation('configuration %s (%s) is accepted but does not build: %s' % (c.name, ' '.join('%s=%s' % kv for kv in sorted(c.over.items())), vf.first_error(e)), {'config_values': c.values()})
    cores = ('noq', 'qq5', 'guard2', 'noext_nolarge', 'bare', 'full', 'lightq')
    sets = vf.build_many(lambda ic: matrix_jobs(ic[1], seed * 100 + ic[0], 4 if thorough else 1, thorough or ic[1].name[2:] in cores), list(enumerate(built)))
    jobs = [j for s in sets for j in s]
    res.run(jobs, accept=['*'])
    res.cov['rule'] = ('operations of the harnesses of the other properties on libraries of %d configurations (%d fixed ones with options off, at their bounds and combined, the others random); distinct: different '
                       '(entry point, size class, ...) combinations of the harnesses, and configurations' % (len(built), len(vf.MATRIX)))
    res.stats['configurations'] = len(built)
    res.require('configurations', 40)


# ---------------------------------------------------------------- fork

@check('C14')
def c14(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        jobs += jobs_for('forkt', ['default', 'light', 'seal', 'arena1', 'mid'], [{'VF_MODE': 'busy', 'VF_OPS': 80, 'VF_SEED': seed * 100 + i}], seed, timeout=300)
        jobs += jobs_for('forkt', ['default', 'stats'], [{'VF_MODE': 'busy', 'VF_OPS': 60, 'VF_THREADS': t, 'VF_SEED': seed * 100 + i} for t in (2, 20)], seed, timeout=300)
        jobs += jobs_for('forkt', ['default', 'light'], [{'VF_MODE': 'storm', 'VF_OPS': 100, 'VF_SEED': seed * 100 + i}], seed, timeout=300)
        jobs += jobs_for('forkt', ['default', 'light', 'arena1', 'seal', 'mid', 'stats'], [{'VF_MODE': 'hold', 'VF_OPS': 2, 'VF_SEED': seed * 100 + i}], seed, timeout=300)
    jobs += jobs_for('forkt', ['default', 'light', 'arena1', 'seal', 'mid', 'noinit'], [{'VF_MODE': 'rand', 'VF_OPS': 1, 'VF_SEED': seed * 100 + i} for i in range(2 * k)], seed, timeout=200)
    res.run(jobs, accept=['C01'])
    res.cov['rule'] = ('operations and object checks in children, and sequences compared between processes; distinct: forks made while other threads were inside calls of the allocator, '
                       'and (process pair, arena, size class) sequences compared')
    res.require('forks_with_threads_in_calls', 200)
    res.require('locks_held_at_fork', 50)
    res.require('sequences_compared', 10000)


# ---------------------------------------------------------------- threads

TSAN_OPTIONS = 'halt_on_error=0 history_size=7 report_signal_unsafe=0 detect_deadlocks=1 second_deadlock_stack=1 handle_abort=0 handle_segv=0'


def tsan_job(harness, cfg, env, timeout=200):
    c = CONFIGS[cfg]
    exe = vf.build_static(harness, c, san=['-fsanitize=thread'])
    e = {'TSAN_OPTIONS': TSAN_OPTIONS}
    e.update(env)
    # ThreadSanitizer wants a known address space
    return Job('tsan/%s/%s/%s' % (harness, cfg, ','.join('%s=%s' % (k[3:].lower(), v) for k, v in env.items())), '/bin/sh',
               e, ['-c', 'if setarch -R true 2>/dev/null; then exec setarch -R "$0"; else exec "$0"; fi', exe], timeout=timeout, cfg=c)


@check('C15')
def c15(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    cfgs = ['tsan', 'tsan4', 'tsanlight', 'tsanseal']
    jobs = []
    for i in range(k):
        for c in cfgs:
            for m, ops, t in (('mixed', 25000, 8), ('mixed', 8000, 24), ('small', 200000, 8), ('large', 2000, 8)):
                jobs.append(tsan_job('mt', c, {'VF_MODE': m, 'VF_OPS': ops, 'VF_THREADS': t, 'VF_SEED': seed * 100 + i}))
    # many first calls
    for i in range(60 * k):
        jobs.append(tsan_job('mt', cfgs[i % len(cfgs)], {'VF_OPS': 20, 'VF_THREADS': 12 + i % 5, 'VF_SEED': seed * 1000 + i}))
    jobs += jobs_for('mt', ['default', 'light', 'seal', 'arena1', 'noinit', 'stats'], [{'VF_OPS': 15000, 'VF_THREADS': 24, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += jobs_for('mt', ['default', 'arena1'], [{'VF_MODE': 'small', 'VF_OPS': 200000, 'VF_THREADS': 16, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += jobs_for('mt', ['default', 'arena1', 'light'], [{'VF_OPS': 30000, 'VF_THREADS': 12, 'VF_DELAY': 0, 'VF_ROUNDS': 3, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    res.run(jobs, accept=['C01'])
    model(res, tier, seed, ['default', 'light'], (8, 32), ['mixed', 'churn', 'large'], accept=['C01', 'C02', 'C03', 'C11', 'C21'], scale=0.5)
    res.cov['rule'] = ('operations of threads calling every entry point on shared and own objects; distinct: different (entry point, size class before, size class or alignment after), '
                       'and kinds of calls made concurrently')
    res.require('objects_handed_over', 10000)


# ---------------------------------------------------------------- first calls

@check('C30')
def c30(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        for c in ('noinit', 'nilight', 'niseal', 'nistats', 'niarena1'):
            e = {'VF_OPS': 150, 'VF_SEED': seed * 100 + i}
            jobs.append(Job('first/static/%s/%d' % (c, i), vf.build_static('first', CONFIGS[c], cc='gcc'), e, timeout=200, cfg=CONFIGS[c]))
    jobs += jobs_for('first', ['default', 'noinit', 'seal', 'light', 'stats'], [{'VF_SEED': seed * 100}], seed, timeout=200)
    # concurrent first calls with the race detector
    for i in range(16 * k):
        jobs.append(tsan_job('mt', ('tsan', 'tsan4', 'tsanlight', 'tsanseal')[i % 4], {'VF_OPS': 10, 'VF_THREADS': 12 + i % 5, 'VF_SEED': seed * 1000 + 500 + i}))
    res.run(jobs)
    res.cov['rule'] = ('first calls of a process (every entry point and size, queries, misuse, failing initialization, races of up to 24 threads), each followed by a test of the whole allocator; '
                       'distinct: different (entry point, size), queries, misuse, failing kernel calls and race shapes')
    res.require('failed_initializations', 300)
    res.require('races', 300)


# ---------------------------------------------------------------- state, statistics, system calls

@check('C18')
def c18(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        s = seed * 100 + i
        jobs += jobs_for('state', ['default', 'light', 'seal', 'stats', 'arena1'], [{'VF_OPS': 20000, 'VF_THREADS': 4, 'VF_SEED': s}, {'VF_OPS': 40000, 'VF_THREADS': 1, 'VF_NOFAULT': 1, 'VF_SEED': s}], seed, timeout=300)
        jobs += jobs_for('state', ['seal', 'sealstats'], [{'VF_OPS': 60000, 'VF_THREADS': t, 'VF_NOFAULT': n, 'VF_SEED': s + 50} for t in (1, 8) for n in (0, 1)], seed, timeout=300)
        jobs += cxx_jobs(['seal', 'sealstats'], s, VF_OPS=20000, VF_MISMATCH=0)
        jobs += jobs_for('state', ['small', 'noinit', 'mid'], [{'VF_OPS': 20000, 'VF_THREADS': 3, 'VF_SEED': s}], seed, timeout=300)
    res.run(jobs)
    res.cov['rule'] = ('calls after which access rights are read, and words of globals and of memory of the program scanned for pointers to the state; '
                       'distinct: different entry points called, failed, and called first')
    res.require('words_scanned', 10000000)
    if any('no protection keys' in i for j in jobs for i in j.infos):
        res.skipped.append('no protection keys on this machine: sealing not monitored')
    else:
        res.require('rights_checked', 100000)
        res.require('sealed_probes', 1000)


@check('C20')
def c20(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        s = seed * 100 + i
        jobs += jobs_for('stats', ['stats', 'lightstats', 'sealstats', 'stats16', 'stats1', 'default'], [{'VF_THREADS': t, 'VF_EACH': 6000, 'VF_OPS': 6000, 'VF_ROUNDS': 12, 'VF_FAULT': f, 'VF_SEED': s + f} for t in (1, 6, 16) for f in (0, 1)], seed, timeout=300)
        jobs += jobs_for('oom', ['stats'], [{'VF_MODE': 'limits', 'VF_OPS': 3, 'VF_SEED': s}], seed, timeout=300)
    res.run(jobs)
    res.cov['rule'] = ('counters of bins compared with the model and reports parsed; distinct: different entry points called and (arena, size class) bins used')
    res.require('bins_compared', 1000000)
    res.require('slab_totals_compared', 10000)
    res.require('concurrent_reports', 1000)


@check('C23')
def c23(res, tier, seed):
    k = 6 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        s = seed * 100 + i
        jobs += jobs_for('sys', ['default', 'light', 'seal', 'stats', 'arena1', 'mid', 'label', 'labelseal'], [{'VF_THREADS': t, 'VF_OPS': 30000, 'VF_FAULT': f, 'VF_SEED': s} for t, f in ((1, 0), (8, 0), (4, 1))], seed, timeout=200)
        for c in ('noinit', 'nilight', 'niseal', 'nistats'):
            jobs.append(Job('sys/static/%s/%d' % (c, i), vf.build_static('sys', CONFIGS[c], cc='gcc'), {'VF_MISUSE': 200, 'VF_OPS': 10000, 'VF_SEED': s}, timeout=200, cfg=CONFIGS[c]))
    jobs += jobs_for('oom', ['default', 'light', 'seal'], [{'VF_MODE': 'c16', 'VF_OPS': 6000, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += jobs_for('oom', ['small', 'default'], [{'VF_MODE': 'limits', 'VF_OPS': 3, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    jobs += jobs_for('space', ['default', 'light'], [{'VF_MODE': 'foot', 'VF_OPS': 2, 'VF_SEED': seed * 100 + i} for i in range(k)], seed, timeout=300)
    res.run(jobs)
    res.cov['rule'] = ('kernel calls which passed a filter with exactly the documented calls and arguments, and were checked against the ranges the allocator owns; '
                       'distinct: different entry points called and failed under the filter, and situations of the fault injection runs')
    res.require('kernel_calls_filtered', 100000)
    res.require('ownership_checks', 100000)
    res.require('reports_under_filter', 500)


@check('C31')
def c31(res, tier, seed):
    k = 10 if tier == 'thorough' else 1
    jobs = jobs_for('label', ['label', 'labellight', 'labelseal'], [{'VF_OPS': 60000, 'VF_SEED': seed * 100 + i} for i in range(3 * k)], seed)
    jobs += jobs_for('label', ['label', 'labellight', 'labelseal'], [{'VF_OPS': 60000, 'VF_LABELS': 0, 'VF_SEED': seed * 100 + i} for i in range(k)], seed)
    res.run(jobs)
    model(res, tier, seed, ['label', 'labellight'], (1,), ['mixed', 'large'], accept=['*'], scale=0.3, thorough=2)
    res.cov['rule'] = ('labels kept as a kernel would and compared with the use of the memory, and calls while every label is refused; distinct: size classes (and large allocations, '
                       'resized ones and quarantined ones) whose label was compared')
    res.require('label_checks', 100000)
    res.require('quarantined_seen', 5000)
    res.require('labels_failed', 20000)


def setup():
    for c in ('default', 'light'):
        build_harness('model', CONFIGS[c])


# ---------------------------------------------------------------- Android, memory tagging

def droid_jobs(res, mte, cfgs, envs, seed):
    jobs = []
    for c in cfgs:
        try:
            exe = vf.build_droid(CONFIGS[c], mte)
        except vf.BuildError as e:
            res.skipped.append('build as for Android, configuration %s: %s' % (c, vf.first_error(e)))
            continue
        for i, e in enumerate(envs):
            env = dict(e, VF_SEED=seed * 100 + i)
            jobs.append(Job('droid%s/%s/%s' % ('-mte' if mte else '', c, ','.join('%s=%s' % (k[3:].lower(), v) for k, v in env.items())), exe, env, timeout=200, cfg=CONFIGS[c]))
    return jobs


@check('C27')
def c27(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        s = seed + 1000 * i
        jobs += droid_jobs(res, True, ['android', 'android4', 'androidq', 'androidc'],
                           [{'VF_MODE': 'stats', 'VF_HOSTILE': h, 'VF_OPS': 100000} for h in (0, 50, 95)] + [{'VF_MODE': 'threads'}, {'VF_MODE': 'turnoff', 'VF_HOSTILE': 70}, {'VF_MODE': 'early', 'VF_OPS': 30000}], s)
        jobs += droid_jobs(res, True, ['labelandroid'], [{'VF_MODE': 'stats', 'VF_HOSTILE': 30, 'VF_OPS': 30000}], s)
        jobs += droid_jobs(res, True, ['androidns'], [{'VF_MODE': 'stats', 'VF_HOSTILE': 60}, {'VF_MODE': 'turnoff'}], s)
    res.run(jobs, accept=['C29'])
    res.cov['rule'] = ('allocations, frees, queries and accesses of the allocator judged in a software model of memory tagging; distinct: different (size class, tag) combinations handed out')
    if not jobs:
        return
    few = res.skipped or res.stats.get('instructions_stepped', 0) > 1000000      # runs are cut short when too much has to be emulated
    res.require('neighbours_compared', 20000 if few else 200000)
    res.require('previous_tags_compared', 5000 if few else 50000)
    res.require('accesses_checked', 100000 if few else 10000000)


@check('C29')
def c29(res, tier, seed):
    k = 8 if tier == 'thorough' else 1
    jobs = []
    for i in range(k):
        s = seed + 1000 * i
        jobs += droid_jobs(res, False, ['android', 'android4', 'androidns', 'androidq', 'androidc'],
                           [{'VF_MODE': 'stats'}, {'VF_MODE': 'threads'}, {'VF_MODE': 'threads', 'VF_THREADS': 20, 'VF_OPS': 20000}, {'VF_MODE': 'disable'}, {'VF_MODE': 'early', 'VF_OPS': 20000}], s)
        jobs += droid_jobs(res, True, ['android', 'android4', 'androidns'], [{'VF_MODE': 'turnoff'}, {'VF_MODE': 'early', 'VF_OPS': 20000}, {'VF_MODE': 'disable'}], s + 1)
    res.run(jobs, accept=['C27'])
    res.cov['rule'] = ('bins and arenas compared with the model, calls of other threads while the allocator was disabled, and operations after tagging was disabled; distinct: different (size class, tag) combinations handed out')
    if not res.skipped:
        res.require('bins_compared', 30000)
        res.require('calls_stopped', 300)
