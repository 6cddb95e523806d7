"""Group: two- and three-dimensional classic steps (C10; Courant numbers for C03)."""
import random
PROPS = ['C10', 'C03']
RECORDER = 'rec_multi'
JUDGE = 'MultiTrace'


def models(tier, seed):
    num = 150 if tier == 'quick' else 900
    sim = ['-simulate', 'num=%d' % num, '-depth', '6', '-seed', str(seed)]
    m = [dict(module='PlaneModel', cfg='PlaneModel', workers=2),
         dict(module='SpaceModel', cfg='SpaceModel', workers=4),
         dict(module='PlaneModel', cfg='PlaneModelSim', key='plane', workers=1, extra=sim),
         dict(module='SpaceModel', cfg='SpaceModelSim', key='space', workers=1, extra=sim)]
    if tier != 'quick':
        m.append(dict(module='SpaceModel', cfg='SpaceModelDeep', workers=8, timeout=800))
    return m


MATS = [dict(R=[[1, 1], [-1, 1]], s=[-1, 1]), dict(R=[[1, 1], [-1, 1]], s=[-2, 1]), dict(R=[[1, 2], [0, 1]], s=[1, -1]),
        dict(R=[[2, 1], [1, 1]], s=[1, 2]), dict(R=[[1, 0], [0, 1]], s=[0, -1]), dict(R=[[1, 1], [1, -1]], s=[-1, -2])]
TR3 = {1: [0, 10, 11, 20, 21, 22], 2: [0, 10, 11, 20, 21, 22]}


def scenarios(beh, tier, seed):
    rng = random.Random(10000 + seed)
    res = []
    for b in beh['plane']:
        res.append(dict(kind='plane', p=b['p'], capa=b['capa'], xaux=rng.choice([0, 0, 1])))
    for p in beh['space']:
        xa = rng.choice([0, 0, 1])
        if xa and not p['capa'] and not p['adv']:
            xa = 0
        res.append(dict(kind='space', p=p, xaux=xa))
    k = 1 if tier == 'quick' else 8

    def specs(nd):
        if rng.random() < .3:
            return ['burgers'] * nd
        if rng.random() < .3:
            return [dict(R=[[1]], s=[rng.choice([-2, -1, 1, 2])]) for _ in range(nd)]
        return [rng.choice(MATS) for _ in range(nd)]

    def base(nd, big=5):
        o = dict(ord=rng.choice([1, 2, 2]), split=int(rng.random() < .3))
        sp = specs(nd)
        nw = 1 if sp[0] == 'burgers' else len(sp[0]['s'])
        o['lim'] = [rng.choice([0, 1, 2, 3, 4]) for _ in range(nw)]
        o['tr'] = rng.choice([0, 1, 2]) if nd == 2 else rng.choice(TR3[o['ord']])
        return dict(nd=nd, n=[rng.randrange(2, big + 1) for _ in range(nd)], specs=sp, dx=[rng.choice([0.5, 1.0, 2.0]) for _ in range(nd)],
                    dt=rng.choice([0.0625, 0.125]), opts=o, per=[rng.choice([0, 1]) for _ in range(nd)], capa=int(rng.random() < .3),
                    seed=rng.randrange(10 ** 6))
    for _ in range(40 * k):
        nd = rng.choice([2, 2, 3])
        res.append(dict(base(nd, 5 if nd == 2 else 3), kind='sweeps'))
    for _ in range(60 * k):
        nd = rng.choice([2, 3])
        res.append(dict(base(nd, 7), kind='reduce', dir=rng.randrange(nd)))
    for _ in range(40 * k):
        nd = rng.choice([2, 3])
        s = base(nd, 5)
        s['opts']['split'] = 0
        s['opts']['steps'] = rng.choice([1, 2])
        perm = list(range(nd))
        rng.shuffle(perm)
        res.append(dict(s, kind='exchange', perm=perm))
    for _ in range(10 * k):
        s = base(2, 9)
        s['opts']['lim'] = rng.choice([0, 1, 2, 3, 4])
        res.append(dict(s, kind='acoustics', dir=rng.randrange(2), per=rng.choice([0, 1])))
    return res


def select(scens, prop, tier):
    if prop == 'C03':
        return [s for s in scens if s['kind'] in ('plane', 'space')]
    return scens
