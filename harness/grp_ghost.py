"""Group: boundary conditions (C08)."""
import random
PROPS = ['C08']
RECORDER = 'rec_ghost'
JUDGE = 'GhostTrace'
KINDS = ['c1py', 'c1f', 'c2s', 'c2u', 'c3s', 'c3u', 's1py', 's1f', 's2f', 's3f', 'c2u', 's2f']


def models(tier, seed):
    m = [dict(module='GhostModel', cfg='GhostModel', workers=4), dict(module='GhostModel', cfg='GhostModelThin', workers=4),
         dict(module='GhostModel', cfg='GhostModelSim', key='ghost', workers=1,
              extra=['-simulate', 'num=%d' % (450 if tier == 'quick' else 6000), '-depth', '20', '-seed', str(seed)])]
    if tier != 'quick':
        m.append(dict(module='GhostModel', cfg='GhostModelDeep', workers=8, timeout=800))
    return m


def scenarios(beh, tier, seed):
    rng = random.Random(3000 + seed)
    bs = beh['ghost']
    res = []
    K = ['extrap', 'periodic', 'wall', 'custom']

    def third(b, wall):
        b = dict(b)
        b['bl'] = list(b['bl']) + [rng.choice(K)]
        b['bu'] = list(b['bu']) + [rng.choice(K)]
        r = rng.random()
        p = list(range(3))
        rng.shuffle(p)
        for x in ('bl', 'bu'):
            b[x] = [b[x][i] for i in p]
            if not wall:
                b[x] = ['extrap' if y == 'wall' else y for y in b[x]]
        return b
    n = 0
    while n + 4 <= len(bs):
        kind = KINDS[(n // 4) % len(KINDS)]
        nd = int(kind[1])
        thin = rng.random() < 0.2
        # the multidimensional compiled kernels need a few cells
        lo = 1 if thin else 4
        hi = {1: 9, 2: 7, 3: 5}[nd]
        nn = [rng.randrange(lo, hi) for _ in range(nd)]
        ng = 5 if kind[0] == 's' else 2
        wall = min(nn) >= (2 if kind[0] == 'c' else 4)
        fills = []
        ti = rng.choice(['Euler', 'SSP33']) if kind[0] == 's' else 'none'
        for j in range(4):
            q, a = third(bs[n + j], wall), third(bs[(n + j + 1) % len(bs)], wall)
            act = [list(bs[n + j]['al']) + [1], list(bs[n + j]['au']) + [1]]
            # the stages of a Runge-Kutta method live on the patch as it was at setup
            if j == 0 or ti == 'SSP33' or rng.random() < 0.5:
                act = [[1, 1, 1], [1, 1, 1]]
            fills.append(dict(q=dict(bl=q['bl'], bu=q['bu']), aux=dict(bl=a['bl'], bu=a['bu']), al=act[0], au=act[1],
                              late=rng.choice([0, 1, 2] if kind[0] == 'c' else [0, 1])))
        rf = [rng.randrange(1, nd + 2) for _ in range(3)] if rng.random() < .5 else [2, 3, 4]
        res.append(dict(cfg=dict(kind=kind, n=nn, naux=rng.choice([0, 2]), rf=rf, dseed=rng.randrange(1000),
                                 oldsig=int(rng.random() < .2), lt=rng.choice([1, 2]), weno=rng.choice([5, 5, 7]),
                                 t0=rng.choice([0, 3, 10]), ti=ti), fills=fills))
        n += 4
    return res
