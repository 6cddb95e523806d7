"""Group: adaptive time stepping (C01-C04)."""
import random
PROPS = ['C01', 'C02', 'C03', 'C04']
RECORDER = 'rec_step'
JUDGE = 'StepTrace'

KINDS_C = ['c1py', 'c1f', 'c2s', 'c2u', 'c3s', 'c3u', 'c1py2']
KINDS_S = ['s1py', 's1f', 's2f', 's3f', 's1py2']


def models(tier, seed):
    m = [dict(module='StepModel', cfg='StepModel', workers=4),
         dict(module='StepModel', cfg='StepModelSim', key='step', workers=1,
              extra=['-simulate', 'num=%d' % (600 if tier == 'quick' else 2500), '-depth', '80', '-seed', str(seed)])]
    if tier != 'quick':
        m.append(dict(module='StepModel', cfg='StepModelDeep', workers=6, timeout=800))
    return m


def scenarios(beh, tier, seed):
    rng = random.Random(1000 + seed)
    res = []

    def flavour(c, nr):
        fam = c['fam']
        cfg = dict(c)
        kinds = KINDS_C if fam == 'c' else KINDS_S
        cfg['kind'] = kinds[nr % len(kinds)]
        cfg['pl'] = rng.randrange(60)
        cfg['dseed'] = rng.randrange(1000)
        cfg['src'] = 0
        cfg['ss'] = 1
        cfg['each'] = 0
        cfg['ti'] = 'none'
        cfg['gauge'] = int(rng.random() < 0.4)
        cfg['hookmod'] = int(rng.random() < 0.4)
        cfg['capa'] = 0
        cfg['ts'] = rng.choice([0, 0, 0, -24, -40, 20] if cfg['variable'] else [0, 0, -10, -20, 20])
        if fam == 'c':
            cfg['order'] = rng.choice([1, 2])
            cfg['lim'] = rng.choice([1, 2, 3, 4])
            cfg['src'] = int(rng.random() < 0.6)
            cfg['ss'] = rng.choice([1, 2])
            if cfg['kind'] not in ('c1py2',) and rng.random() < 0.35:
                cfg['capa'] = rng.choice([1, 2])
            if cfg['kind'] == 'c2u':
                cfg['tw'] = rng.choice([0, 1, 2])
            if cfg['kind'] == 'c3u':
                cfg['tw'] = rng.choice([0, 11, 22])
        else:
            cfg['each'] = int(rng.random() < 0.7)
            cfg['ti'] = rng.choice(['Euler', 'SSP33', 'SSP104', 'RK'])
            cfg['lt'] = rng.choice([1, 2])
            if rng.random() < 0.3 and cfg['kind'] not in ('s1py2',):
                cfg['capa'] = rng.choice([1, 2])
        return cfg

    for nr, b in enumerate(beh['step']):
        cfg = flavour(b['c'], nr)
        if not cfg['each']:
            rows = [[r[0]] for r in b['rows']]
        else:
            # the model's second number is the largest speed of the later stages
            n = 12
            rows = []
            for r in b['rows']:
                w = rng.randrange(1, n)
                row = [r[0]] + [rng.choice([0, r[1] // 2, r[1]]) for _ in range(n)]
                row[1] = r[1]
                rows.append(row)
        res.append(dict(cfg=cfg, ops=b['ops'], speeds=rows or [[1]]))
    # longer random histories than the model enumerates
    for nr in range(250 if tier == 'quick' else 900):
        cd = rng.choice([12, 12, 12, 24])
        c = dict(fam=rng.choice('ccs'), variable=int(rng.random() < 0.85), cm=rng.choice([cd, cd + 4, 2 * cd]), cd=cd,
                 dtmax=rng.choice([5, 12, 50, 10000]), dt0=rng.choice([1, 2, 3, 7, 16, 40]),
                 maxs=rng.choice([2, 5, 10, 1000]))
        cfg = flavour(c, rng.randrange(100))
        rows = [[rng.choice([0, 1, 1, 2, 3, 4, 6, 12]) for _ in range(12 if cfg['each'] else 1)]
                for _ in range(40)]
        if not c['variable']:
            rows = [[rng.choice([0, 1, 2]) for _ in r] for r in rows]
        if rng.random() < 0.3:
            rows = [[rng.choice([0, 1, 2])] for _ in range(6)]
        ops, t = [], 0
        for _ in range(rng.randrange(2, 9)):
            x = rng.random()
            if x < 0.25:
                ops.append(dict(op='one', tend=0))
            elif x < 0.35:
                ops.append(dict(op='max', n=rng.choice([1, 3, 8, 1000])))
            else:
                t += rng.choice([0, 1, 4, 9, 17, 33, -3])
                if not c['variable']:
                    t = (max(t, 0) // c['dt0']) * c['dt0']
                ops.append(dict(op='to', tend=t))
        res.append(dict(cfg=cfg, ops=ops, speeds=rows))
    # Courant numbers just above, at and just below the limit
    for nr in range(60 if tier == 'quick' else 300):
        c = dict(fam=rng.choice('ccs'), variable=1, cm=rng.choice([9900, 9990, 9998, 9999, 10000, 10001, 10890]), cd=9900, dtmax=10000,
                 dt0=rng.choice([90, 99, 100, 101, 110]), maxs=1000)
        cfg = flavour(c, rng.randrange(100))
        cfg['cu'] = -10
        rows = [[rng.choice([99, 99, 100, 100, 110, 90, 50]) for _ in range(12 if cfg['each'] else 1)] for _ in range(40)]
        ops, t = [], 0
        for _ in range(rng.randrange(2, 6)):
            if rng.random() < .5:
                ops.append(dict(op='one', tend=0))
            else:
                t += rng.choice([120, 300, 777])
                ops.append(dict(op='to', tend=t))
        res.append(dict(cfg=cfg, ops=ops, speeds=rows))
    # fixed steps that almost divide the interval: they must be refused, or land on the end time
    for nr in range(20 if tier == 'quick' else 80):
        dt0, k, r = rng.choice([(199, 10, 10), (199, 10, -10), (1001, 10, -10), (333, 3, 1), (97, 1, 3), (64, 5, 1), (1009, 20, 7), (25, 40, 0)])
        c = dict(fam=rng.choice('cs'), variable=0, cm=30000, cd=20000, dtmax=100000, dt0=dt0, maxs=1000)
        cfg = flavour(c, nr)
        cfg['gauge'] = 0
        ops = [dict(op='to', tend=dt0 * k + r)]
        if rng.random() < .5:
            ops = [dict(op='to', tend=dt0 * 2)] + [dict(op='to', tend=dt0 * (k + 2) + r)]
        res.append(dict(cfg=cfg, ops=ops, speeds=[[rng.choice([0, 1, 2])] for _ in range(7)]))
    return res
