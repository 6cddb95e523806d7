"""Group: controller runs (C05, C07, part of C06)."""
import random
PROPS = ['C05', 'C06', 'C07']
RECORDER = 'rec_ctrl'
JUDGE = 'CtrlTrace'
FMTS = [['ascii'], ['hdf5'], ['ascii', 'hdf5'], ['hdf5', 'ascii'], ['ascii', 'vtk'], ['vtk', 'hdf5']]


def models(tier, seed):
    m = [dict(module='CtrlModel', cfg='CtrlModel', workers=4),
         dict(module='CtrlModel', cfg='CtrlModelSim', key='ctrl', workers=1,
              extra=['-simulate', 'num=%d' % (900 if tier == 'quick' else 4000), '-depth', '60', '-seed', str(seed)])]
    if tier != 'quick':
        m.append(dict(module='CtrlModel', cfg='CtrlModelDeep', workers=8, timeout=800))
    return m


def scenarios(beh, tier, seed):
    rng = random.Random(2000 + seed)
    res = []
    bs = [b for b in beh['ctrl']]
    multi = [b for b in bs if not b['cfg']['restart']]
    single = [b for b in bs if b['cfg']['restart']]
    bs = multi + single[:max(20, len(multi) // 4)]
    kinds = ['c1py', 'c1f', 'c2s', 'c2u', 's1py', 's1f', 's2f', 'c1py2', 's1py2', 'c3s', 's3f', 'c1f']
    for nr, b in enumerate(bs):
        kind = kinds[nr % len(kinds)]
        nd = int(kind[1])
        c = dict(kind=kind, fam=kind[0], variable=1, cm=16, cd=12, dtmax=rng.choice([5, 12, 30]),
                 dt0=rng.choice([1, 3, 8]), maxs=1000, pl=rng.randrange(60), dseed=rng.randrange(1000),
                 order=rng.choice([1, 2]), ss=1, ti=rng.choice(['SSP33', 'Euler', 'SSP104']),
                 keep=b['cfg']['keep'], restart=b['cfg']['restart'], t0=rng.choice([0, 5, 32]),
                 fmts=rng.choice(FMTS) if b['cfg']['writes'] else [], capa=int(rng.random() < .3 and not kind.endswith('2')))
        if c['kind'] == 'c1py2':
            c['capa'] = 0
        if nd != 2 and 'vtk' in c['fmts']:      # that format exists for two dimensions
            c['fmts'] = ['ascii']
        if not c['restart']:
            c['t0'] = 0
        c['prefix'] = 'abc' if rng.random() < .25 else ''
        c['auxinit'] = int(rng.random() < .4)
        c['auxalways'] = int(rng.random() < .4)
        c['p'] = int(rng.random() < .4 and bool(c['fmts']) and 'vtk' not in c['fmts'])
        c['F'] = int(rng.random() < .4)
        c['gauges'] = []
        if rng.random() < .7:
            nc = {1: [7], 2: [6, 5], 3: [4, 5, 4]}[nd]
            for _ in range(rng.randrange(1, 5)):
                g = [rng.randrange(-6, 4 * n + 6) for n in nc]
                if g not in c['gauges']:
                    c['gauges'].append(g)
            # one inside at least
            c['gauges'].append([4 * rng.randrange(n) + rng.choice([1, 3]) for n in nc])
            u = []
            for g in c['gauges']:
                if g not in u:
                    u.append(g)
            c['gauges'] = u
        sp = [[rng.choice([0, 1, 1, 2, 3, 4, 6, 12])] for _ in range(30)]
        res.append(dict(cfg=c, runs=b['runs'], speeds=sp))
    return res
