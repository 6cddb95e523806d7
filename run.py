#!/usr/bin/env python3
"""run.py <property> [--replay FILE] : decides one property.  Tier and seed come from
VERIF_TIER (quick | thorough) and VERIF_SEED."""
import argparse, importlib, json, os, shutil, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import vlib
from registry import GROUPS_OF, LEVELS, ASSUME


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    code = 2
    try:
        code = run(prop, a, scratch, t0)
    except vlib.MachineryError as ex:
        print('MACHINERY', ex)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(prop, a, scratch, t0):
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    if not a.replay:
        for f in os.listdir(evd):
            if f.startswith('replay_%s_' % prop) or f == prop + '.json':
                os.unlink(os.path.join(evd, f))
    vlib.build()
    fails = []           # (group, scenario, trace, line, clauses)
    states = trans = nvalid = nsc = 0
    detail = []
    samples = []
    known = [k for k in vlib.load_known() if k.get('property') == prop and k.get('status') == 'known']
    known_hit = []
    for gname in GROUPS_OF[prop]:
        g = importlib.import_module(gname)
        if a.replay:
            rp = json.load(open(a.replay))
            if rp['group'] != gname:
                continue
            scens = [rp['scenario']]
        else:
            st, tr, beh, info = vlib.run_models(g.models(a.tier, a.seed), scratch)
            states += st
            trans += tr
            scens = g.scenarios(beh, a.tier, a.seed)
            if hasattr(g, 'select'):
                scens = g.select(scens, prop, a.tier)
            detail.append(dict(group=gname, models=info, behaviours={k: len(v) for k, v in beh.items()},
                               scenarios=len(scens)))
        t1 = time.time()
        traces = vlib.record(g.RECORDER, scens, scratch, getattr(g, 'EACH', 15),
                             getattr(g, 'TOTAL', 700))
        t2 = time.time()
        tl = []
        for i, t in enumerate(traces):
            if 'skip' in t:
                continue
            if 'crash' in t:
                tl.append(dict(id=i, cfg=scens[i].get('cfg', {}), ev=[dict(e='crash', log=t.get('log', ''))]))
            else:
                tl.append(dict(t, id=i))
        byid = {t['id']: t for t in tl}
        if hasattr(g, 'judge'):
            fl, st, tr = g.judge(tl, scratch, vlib)
        else:
            fl, st, tr = vlib.judge(g.JUDGE, tl, scratch)
        states += st
        trans += tr
        nsc += len(scens)
        nvalid += len(tl)
        if a.v:
            print('# %s: %d traces; record %.1fs judge %.1fs' % (gname, len(tl), t2 - t1, time.time() - t2))
            allf = {}
            for f in fl:
                for b in f['bad']:
                    allf[b] = allf.get(b, 0) + 1
            print('#   all failing clauses:', allf)
        if tl and len(samples) < 3:
            samples.append(dict(group=gname, scenario=scens[0], first_events=tl[0]['ev'][:4]))
        for f in fl:
            bad = sorted(b for b in f['bad'] if b.split('.')[0] in (prop, 'ALL'))
            if bad:
                fails.append((gname, scens[f['id']], byid[f['id']], f['line'], bad))
    real = []
    for f in fails:
        hit = [k for k in known if k['group'] == f[0] and set(f[4]) <= set(k['clauses'])
               and all(f[1].get('cfg', {}).get(x) == y for x, y in k.get('where', {}).items())]
        if hit:
            known_hit.append(hit[0])
        else:
            real.append(f)
    for k in {json.dumps(k, sort_keys=True) for k in known_hit}:
        print('KNOWN-FINDING: property=%s %s' % (prop, json.loads(k)['what']))
    vio = []
    if real:
        seen = set()
        for n, (gname, sc, tr, line, bad) in enumerate(real):
            key = tuple(bad)
            if key in seen and len(vio) >= 1:
                continue
            if len(vio) >= 5:
                break
            seen.add(key)
            path = os.path.join(evd, 'replay_%s_%d.json' % (prop, len(vio)))
            json.dump(dict(property=prop, group=gname, clauses=bad, line=line, scenario=sc,
                           event=tr['ev'][line - 1] if line <= len(tr['ev']) else None,
                           before=tr['ev'][max(0, line - 6):line - 1]),
                      open(path, 'w'), indent=1)
            vio.append(dict(clauses=bad, replay=path))
            print('%s fails %s' % (prop, ', '.join(bad)))
            ev = tr['ev'][line - 1] if line <= len(tr['ev']) else {}
            print('   event', json.dumps(ev)[:600])
        print('VIOLATION property=%s replay=%s' % (prop, vio[0]['replay']))
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed,
              level=LEVELS.get(prop, 'model_checking'),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=nvalid,
                            samples=samples, detail=detail),
              wall_s=round(time.time() - t0, 1), violations=len(real), assumptions=ASSUME.get(prop, []))
    if not a.replay:
        json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    print('%s: %d traces, %d states, %d violations, %.1fs' % (prop, nvalid, states, len(real), time.time() - t0))
    return 1 if real else 0


if __name__ == '__main__':
    main()
