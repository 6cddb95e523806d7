#!/usr/bin/env python3
"""tryseed.py [--notests] [--props C01,C02] [-j N] [--seeds 1,2] ID... : for each planted change, in a private mount
namespace with copies of /repo, /opt/clawpack and /verif: run its demo on the clean tree, apply, build, demo, tests and
its property's check.  Prints one line per change.  Needs the privilege to mount (development use only)."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(name, default):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return default
notests = '--notests' in args
props = opt('--props', None)
jobs = int(opt('-j', '3'))
seeds = opt('--seeds', '1').split(',')
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(VERIF + '/seeded'))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(i):
    sub = 'seeded' if os.path.exists(VERIF + '/seeded/' + i) else 'seeded_fortran'
    d = VERIF + '/' + sub + '/' + i
    meta = json.load(open(d + '/meta.json'))
    root = '/tmp/ns_' + i
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    sh('cp -a /repo %s/repo; cp -a /opt/clawpack %s/clawpack; cp -a %s %s/verif' % (root, root, VERIF, root))
    res = dict(id=i, property=meta['property'])
    def ns(c):
        return sh('unshare -m bash -c "mount --bind %s/repo /repo && mount --bind %s/clawpack /opt/clawpack && mount --bind %s/verif /verif && %s"'
                  % (root, root, root, c.replace('"', '\\"')))
    r = ns('cd /repo && bash /verif/%s/%s/demo.sh' % (sub, i)); res['demo_clean'] = r.returncode
    if r.returncode: res['demo_err'] = (r.stdout + r.stderr)[-600:]
    a = ns('cd /repo && git apply /verif/%s/%s/patch.diff' % (sub, i)); assert a.returncode == 0, a.stderr
    b = ns('bash /opt/vp/build.sh'); res['build'] = b.returncode
    if b.returncode: res['build_err'] = (b.stdout + b.stderr)[-600:]
    r = ns('cd /repo && bash /verif/%s/%s/demo.sh' % (sub, i)); res['demo_patched'] = r.returncode
    res['demo_last'] = (r.stderr.strip().splitlines() or [''])[-1][:150]
    for p in props.split(',') if props else [meta['property']]:
        for s in seeds:
            t = time.time()
            c = ns('cd /verif && VERIF_SEED=%s VERIF_TIER=quick python3 run.py %s' % (s, p))
            res['check_%s_%s' % (p, s)] = c.returncode
            res['clauses_' + p] = [l for l in c.stdout.splitlines() if ' fails ' in l][:3]
            if c.returncode not in (0, 1): res['err'] = (c.stdout + c.stderr)[-600:]
            res['t'] = round(time.time() - t)
    if not notests:
        ns('bash /opt/vp/test.sh /verif/ts_out.json')
        res['tests_lost'] = sorted(base - set(json.load(open(root + '/verif/ts_out.json'))['passed']))
    shutil.rmtree(root, ignore_errors=True)
    ok = res['demo_clean'] == 0 and res['demo_patched'] != 0 and not res['build'] and not res.get('tests_lost')
    res['counts'] = ok
    print(json.dumps(res), flush=True)


with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
