#!/usr/bin/env python3
"""mutrun.py BATTERY.py [-j N] [--only a,b] [--seeds 1,2] [--all] : run, for each small change listed in a battery file
(M = [(name, 'C01,C02', [(file, old, new), ...]), ...]), the quick checks of the named properties with the changed files
laid over /repo in a private mount namespace.  One line per change.  Development use only (needs mount)."""
import os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
def opt(n, d):
    if n in args:
        i = args.index(n); v = args[i + 1]; del args[i:i + 2]; return v
    return d
jobs = int(opt('-j', '3')); only = opt('--only', None); seeds = opt('--seeds', '1').split(',')
M = runpy.run_path(args[0])['M']
if only: M = [m for m in M if any(m[0].startswith(o) for o in only.split(','))]
SRC = '/repo/src/pyclaw/'

def one(m):
    name, props, edits = m
    w = tempfile.mkdtemp(prefix='mut_')
    try:
        files = {}
        for f, old, new in edits:
            t = files.get(f) or open(SRC + f).read()
            if t.count(old) != 1: return '%-28s BAD EDIT %s count=%d' % (name, f, t.count(old))
            files[f] = t.replace(old, new)
        mounts = 'mount -t tmpfs none /verif/evidence'
        for k, (f, t) in enumerate(files.items()):
            p = '%s/%d.py' % (w, k); open(p, 'w').write(t)
            r = subprocess.run([sys.executable, '-m', 'py_compile', p], capture_output=True, text=True)
            if r.returncode: return '%-28s SYNTAX %s' % (name, r.stderr[-200:])
            mounts += ' && mount --bind %s %s' % (p, SRC + f)
        out = []
        for p in props.split(','):
            for s in seeds:
                c = '%s && cd /verif && VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 run.py %s' % (mounts, s, p)
                r = subprocess.run(['unshare', '-m', 'bash', '-c', c], capture_output=True, text=True)
                v = 'caught' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else ('MISSED' if r.returncode == 0 else 'rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:]))
                why = next((l for l in r.stdout.splitlines() if ' fails ' in l), '')[:110] if v == 'caught' else ''
                out.append('%s %s %s' % (p, v, why))
        return '%-28s %s' % (name, ' | '.join(out))
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(one, M): print(line, flush=True)
