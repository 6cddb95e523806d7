"""Group: one-dimensional classic kernels and limiters (C09, C22, Courant number for C03)."""
import random
PROPS = ['C09', 'C22', 'C03']
RECORDER = 'rec_kernel'
JUDGE = 'KernelTrace'


def models(tier, seed):
    num = 400 if tier == 'quick' else 4000
    m = [dict(module='KernelModel', cfg='KernelModel', workers=4),
         dict(module='KernelGen', cfg='KernelGen', key='gen', workers=1,
              extra=['-simulate', 'num=%d' % num, '-depth', '400', '-seed', str(seed)])]
    if tier != 'quick':
        m.append(dict(module='KernelModel', cfg='KernelModelDeep', workers=8, timeout=800))
    return m


AMP = [0, 0, 0, -20, -45, -90, -150, 30]


def phi_scen(rng, lims, langs):
    """waves such that the first interface of the interior carries nothing and every ratio occurs at several places"""
    nf = len(lims)
    ni = rng.choice([9, 14, 25])
    W, Sp = [], []
    for f in range(nf):
        w = [rng.choice([-3, -2, -1, 0, 1, 1, 2, 2, 3, 4]) for _ in range(ni)]
        if rng.random() < .4:      # repeated pattern: same ratios at different positions
            pat = [rng.choice([-2, -1, 1, 2, 3, 4, 6]) for _ in range(rng.choice([2, 3, 5]))]
            w = [pat[i % len(pat)] for i in range(ni)]
        if rng.random() < .25:     # ratios far from one
            big = rng.choice([30, 150, 200])
            w = [x * rng.choice([1, 1, big]) for x in [rng.choice([-1, 1, 1, 1]) for _ in range(ni)]]
        w[1] = w[ni - 2] = 0       # the edges of the interior
        W.append(w)
        one = rng.choice([-1, 1])
        Sp.append([rng.choice([-2, -1, 1, 2]) if rng.random() < .5 else one for _ in range(ni)])
    a = [rng.choice(AMP)] * ni
    if rng.random() < .5:
        k = rng.randrange(2, ni - 3)
        b = a[0] + rng.choice([10, 26, 40])
        a = a[:k] + [b] * (ni - k) if rng.random() < .5 else [b] * k + a[k:]
    cap = [rng.choice([1, 2, 4]) for _ in range(ni + 1)] if rng.random() < .35 else None
    return dict(kind='phi', cap=cap, xaux=rng.choice([0, 1]), amps=a, tsc=rng.choice([0, 0, 12, -12]), lim=lims, w=W, s=Sp, nu=rng.choice([8, 16, 24]), dx=rng.choice([0.5, 1.0]), langs=langs)


def scenarios(beh, tier, seed):
    rng = random.Random(9000 + seed)
    res = []
    for b in beh['gen']:
        res.append(dict(kind='step', p=b['p'], capa=b['capa'], nu=b['nu'], dx=rng.choice([0.25, 1.0, 2.0]),
                        xaux=rng.choice([0, 0, 1]), amp=rng.choice(AMP), tsc=rng.choice([0, 0, 12, -12, 40]),
                        far=[rng.randrange(100), rng.choice([8, 20, 40])] if rng.random() < .5 else None))
    k = 4 if tier == 'quick' else 20
    for rep in range(k):
        for l in range(1, 6):
            for _ in range(4):
                res.append(phi_scen(rng, [l], ['Python', 'Fortran']))
            res.append(phi_scen(rng, [l, rng.randrange(0, 6)], ['Python', 'Fortran']))
            res.append(phi_scen(rng, [rng.randrange(0, 6), l], ['Python', 'Fortran']))
            res.append(phi_scen(rng, [rng.randrange(0, 6), l, rng.randrange(1, 6)], ['Python', 'Fortran']))
        for l in range(6, 24):
            for _ in range(2):
                res.append(phi_scen(rng, [l], ['Python']))
            res.append(phi_scen(rng, [l, rng.randrange(1, 5)], ['Python']))
    return res


def select(scens, prop, tier):
    if prop == 'C22':
        # the step scenarios without limiters say nothing here
        return [s for s in scens if s['kind'] == 'phi']
    return [s for s in scens if s['kind'] == 'step']
