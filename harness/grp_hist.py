"""Group: several simulations in one process (C20)."""
import random
import grp_cons as gc
PROPS = ['C20']
RECORDER = 'rec_hist'
JUDGE = 'HistTrace'
EACH = 600
NPY, NCO = 8, 24


def models(tier, seed):
    m = [dict(module='HistModel', cfg='HistModel', workers=4),
         dict(module='HistModel', cfg='HistModelSim', key='sim', workers=1,
              extra=['-simulate', 'num=%d' % (200 if tier == 'quick' else 1500), '-depth', '60', '-seed', str(seed)])]
    if tier != 'quick':
        m.append(dict(module='HistModel', cfg='HistModelDeep', workers=8, timeout=800))
    return m


DATA = [('u', [1.5, -0.5, 1.0]), ('gamma', [1.4, 1.6]), ('grav', [1.0, 2.0]), ('umax', [1.0, 0.5])]


def sim(rng, k):
    if k <= NPY:
        fam = rng.choice(['classic', 'sharp'])
        c = gc.cfg(rng, fam, 1, 'Python', rng.choice(gc.EQ1P))
    else:
        nd = rng.choice([1, 1, 2, 2, 3, 3])
        fam = rng.choice(['classic', 'sharp'])
        c = gc.cfg(rng, fam, nd, 'Fortran', rng.choice([e for e in {1: gc.EQ1, 2: gc.EQ2, 3: gc.EQ3}[nd] if not e.startswith('own')]))
    d = {}
    for name, vals in DATA:
        if name in ('u',) and 'advection' in c['eq'] or name == 'gamma' and 'euler' in c['eq'] or \
           name == 'grav' and 'shallow' in c['eq'] or name == 'umax' and c['eq'] == 'traffic_1D':
            d[name] = rng.choice(vals)
    if 'gamma' in d:
        d['gamma1'] = d['gamma'] - 1.0
    if 'acoustics_1D' in c['eq'] or 'acoustics_2D' in c['eq']:
        r = rng.choice([1.0, 4.0])
        d.update(rho=r, bulk=4.0, cc=(4.0 / r) ** .5, zz=(4.0 * r) ** .5)
    c['data'] = d
    if c['fam'] == 'sharp' and c['integ'] == 'SSPLMMk3':
        c['integ'] = 'SSP104'
    if rng.random() < .2:
        c['src'] = rng.randrange(1, 5)
    if rng.random() < .2:
        c['bc'] = 1
    if c['fam'] == 'classic' and rng.random() < .5:
        c['lim1'] = rng.choice([1, 4])
    if rng.random() < .3:
        c['gauge'] = rng.choice([.1, .45, .8])
    if rng.random() < .3:
        c['ctrl'] = rng.choice(['none', 'ascii', 'hdf5'])
    return c


def scenarios(beh, tier, seed):
    rng = random.Random(20000 + seed)
    res = []
    hs = [b for b in beh['sim'] if b]
    sims = None
    for j, h in enumerate(hs):
        if j % 24 == 0:
            sims = dict((str(k), sim(rng, k)) for k in range(1, NPY + NCO + 1))
        use = {str(o['s']) for o in h}
        res.append(dict(sims=dict((k, sims[k]) for k in use), ops=h, perturb=rng.choice([0, 85, 170, 255]), drop=[rng.randrange(len(h)) for _ in range(5)]))
    return res
