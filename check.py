#!/usr/bin/env python3
"""check.py <property> | --setup | --list | --replay <file>

Decides one property of hardened_malloc (see DESIGN.md). VERIF_SEED and VERIF_TIER choose the seed and the depth.
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: the machinery could not decide."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf, checks


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'), 0)
    except ValueError:
        seed = 1
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == '--list':
        print('\n'.join(sorted(checks.CHECKS)))
        return 0
    if a[0] == '--setup':
        checks.setup()
        return 0
    if a[0] == '--replay':
        import subprocess
        for v in json.load(open(a[1]))['violations']:
            i = v['replay']
            print('#', v['text'])
            if i.get('exe'):
                print('#', ' '.join('%s=%s' % kv for kv in i['env'].items()), i['exe'], *i['args'])
                if os.path.exists(i['exe']):
                    subprocess.run([i['exe']] + i['args'], env=vf.clean_env(i['env']), timeout=600)
        return 0
    prop = a[0]
    t0 = time.time()
    vf.prune_builds()
    res = vf.Result(prop)
    try:
        checks.CHECKS[prop](res, tier, seed)
        return vf.finish(res, tier, seed, t0)
    except vf.HarnessError as e:
        if res.viols:
            return vf.finish(res, tier, seed, t0)
        print('inconclusive: property=%s %s' % (prop, e))
        return 2
    except vf.BuildError as e:
        print('inconclusive: property=%s %s\n%s' % (prop, e, e.log[-3000:]))
        return 2
    except Exception:
        traceback.print_exc()
        print('inconclusive: property=%s error in the machinery' % prop)
        return 2
    finally:
        vf.cleanup()


sys.exit(main())
