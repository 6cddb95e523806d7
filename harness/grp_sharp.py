"""Group: SharpClaw right-hand sides (C14; Courant numbers: C03)."""
import random
PROPS = ['C14', 'C03']
RECORDER = 'rec_sharp'
JUDGE = 'SharpTrace'
ORDERS = [5, 7, 9, 11, 13, 15, 17]


def models(tier, seed):
    return [dict(module='SharpModel', cfg='SharpModel' if tier == 'quick' else 'SharpModelDeep', key='line', workers=2)]


def kinds(rng, nd, scheme):
    """kernel language, lim_type"""
    if scheme == 'first':
        return 'Python', -1
    if scheme == 'tvd':
        return 'Fortran', 1
    return rng.choice([('Fortran', 2), ('Fortran', 3)] + ([('Python', 2)] if nd == 1 else []))


def problem(rng, nd, n, scheme, q=None, const=False):
    ne = rng.choice([1, 1, 2, 3]) if nd == 1 else rng.choice([1, 2])
    N = n[0] * n[1] * n[2]
    kl, lt = kinds(rng, nd, scheme)
    qs = [[rng.randrange(-3, 4) for _ in range(N)] for _ in range(ne)]
    if rng.random() < .4:
        qs = [[rng.choice([0, 0, 1, 3]) for _ in range(N)] for _ in range(ne)]
    if q:
        qs[-1] = list(q)
    a = [[rng.randrange(-3, 4) for _ in range(N)] for _ in range(2 * nd)]
    if rng.random() < .3:
        a = [[rng.choice([-2, 1, 3])] * N for _ in range(2 * nd)]
    capa = rng.random() < .35
    return dict(nd=nd, n=n, ne=ne, q=qs, aux=a, cap=[rng.choice([1, 2, 3, 4, 6]) for _ in range(N)] if capa else [],
                cpos=rng.choice([0, 1]), bc=[rng.choice('ppe') for _ in range(nd)], ix=[rng.choice([1, 2, 4]) for _ in range(nd)],
                kl=kl, lt=lt, order=5, lim=[rng.choice([1, 2, 3, 4]) for _ in range(ne)], scheme=scheme, onelim=0,
                ng=rng.choice([2, 3, 4]) if scheme != 'weno5' else 3, sc=rng.choice([0, 0, 0, 8, -10, -17]))


def perm(p, f):
    """arrays of p re-indexed: new[c] = old[f(c)]"""
    n = p['n']
    idx = lambda c: c[0] + n[0] * (c[1] + n[1] * c[2])
    return idx


def remap(p, arr, newn, f):
    n = p['n']
    out = []
    for z in range(newn[2]):
        for y in range(newn[1]):
            for x in range(newn[0]):
                c = f((x, y, z))
                out.append(arr[c[0] + n[0] * (c[1] + n[1] * c[2])])
    return out


def scenarios(beh, tier, seed):
    rng = random.Random(14000 + seed)
    res = []
    deep = tier != 'quick'

    def add(kind, **k):
        p, p2 = k.pop('p', None), k.pop('p2', None)
        s = dict(cfg=dict(kind=kind, seed=rng.randrange(10 ** 6), **k))
        if p:
            s['p'] = p
        if p2:
            s['p2'] = p2
        res.append(s)
    # every emitted line of data, on a scheme
    lines = beh['line']
    if deep:
        lines = [l for l in lines if rng.random() < .5]
    for l in lines:
        for scheme in (['weno5', rng.choice(['tvd', 'first'])] if not deep else ['weno5', 'tvd', 'first']):
            add('rate', p=problem(rng, 1, [len(l), 1, 1], scheme, l))
    for _ in range(60 if not deep else 400):
        add('rate', p=problem(rng, 1, [rng.randrange(3, 10), 1, 1], rng.choice(['weno5', 'tvd', 'first'])))
    for _ in range(60 if not deep else 300):
        add('rate', p=problem(rng, 2, [rng.randrange(3, 7), rng.randrange(3, 7), 1], rng.choice(['weno5', 'tvd'])))
    for _ in range(24 if not deep else 120):
        add('rate', p=problem(rng, 3, [rng.randrange(3, 5), rng.randrange(3, 6), rng.randrange(3, 5)], rng.choice(['weno5', 'tvd'])))
    for k in range(3, 10):
        for _ in range(4 if not deep else 20):
            add('lin', k=k, lt=2)
        for j in range(6 if not deep else 30):
            add('poly', k=k, top=int(j == 0), lt=2)
        for v in [0, 2, -3, 5] if not deep else range(-6, 7):
            add('flat', k=k, v=v, lt=2)
    for _ in range(4):
        add('lin', k=3, lt=3)
        add('poly', k=3, top=1, lt=3)
        add('flat', k=3, v=rng.choice([0, 2, -1]), lt=3)

    # constant data
    for _ in range(30 if not deep else 120):
        nd = rng.choice([1, 2, 3])
        n = [rng.randrange(3, 7) if i < nd else 1 for i in range(3)]
        p = problem(rng, nd, n, rng.choice(['weno5', 'tvd'] + (['first'] if nd == 1 else [])))
        if p['lt'] == 2 and p['kl'] == 'Fortran':
            p['order'] = rng.choice(ORDERS)
        if rng.random() < .3 and p['lt'] in (1, 2) and p['kl'] == 'Fortran':
            p['cd'], p['order'] = 1, 5
        p['q'] = [[rng.randrange(-3, 4)] * (n[0] * n[1] * n[2]) for _ in range(p['ne'])]
        add('zero', p=p)

    # pairs
    for _ in range(220 if not deep else 1200):
        rel = rng.choice(['kernel', 'shift', 'mirror', 'swap', 'lift', 'affine', 'capa', 'components'])
        nd = 1 if rel == 'kernel' else rng.choice([2, 3]) if rel in ('swap', 'lift') else rng.choice([1, 1, 2, 3])
        big = 7 if nd == 1 else 6 if nd == 2 else 5
        n = [rng.randrange(3, big + 1) if i < nd else 1 for i in range(3)]
        p = problem(rng, nd, n, rng.choice(['weno5', 'weno5', 'tvd']))
        if p['lt'] == 2 and p['kl'] == 'Fortran':
            p['order'] = rng.choice(ORDERS)
        if p['lt'] == 3:
            p['lt'] = 2
        if nd == 3 and p['order'] > 11:
            p['order'] = 9
        wave = rel in ('shift', 'components') and rng.random() < .3 and p['kl'] == 'Fortran'
        if wave:
            p['cd'], p['order'] = 1, 5
            if p['lt'] == 1:
                p['ng'] = 3
        p2 = dict(p)
        c = {}
        ar = lambda f, newn: dict(q=[remap(p, x, newn, f) for x in p['q']], aux=[remap(p, x, newn, f) for x in p['aux']],
                                  cap=remap(p, p['cap'], newn, f) if p['cap'] else [])
        if rel == 'kernel':
            p = dict(p, scheme='weno5', kl='Python', lt=2, order=5)
            p2 = dict(p, kl='Fortran', lt=rng.choice([2, 3]), ng=3)
            r = 'same'
        elif rel == 'components':     # each component on its own, with its own limiter
            if p['ne'] < 2 or wave:
                continue
            r = 'same'
            j = 0
            p2 = dict(p, ne=1, q=p['q'][:1], lim=p['lim'][:1])
            p = dict(p)
            p['first_only'] = 1
            p2['first_only'] = 1
        elif rel == 'shift':
            p['bc'] = p2['bc'] = ['p'] * nd
            by = [rng.randrange(n[i]) for i in range(3)]
            # b is the problem whose cell c+by holds what cell c holds in a
            p2.update(ar(lambda x: tuple((x[i] - by[i]) % n[i] for i in range(3)), n))
            c['by'] = by
            r = 'shift'
        elif rel == 'mirror':
            d = rng.randrange(nd)
            p2.update(ar(lambda x: tuple(n[i] - 1 - x[i] if i == d else x[i] for i in range(3)), n))
            a = list(p2['aux'])
            a[2 * d], a[2 * d + 1] = [-v for v in a[2 * d + 1]], [-v for v in a[2 * d]]
            p2['aux'] = a
            c['d'] = d + 1
            r = 'mirror'
        elif rel == 'swap':
            d, e = rng.sample(range(nd), 2)
            sw = lambda x: tuple(x[e] if i == d else x[d] if i == e else x[i] for i in range(3))
            nn = list(sw(n))
            p2.update(ar(sw, nn), n=nn)
            a, ix, bc = list(p2['aux']), list(p['ix']), list(p['bc'])
            a[2 * d:2 * d + 2], a[2 * e:2 * e + 2] = a[2 * e:2 * e + 2], a[2 * d:2 * d + 2]
            ix[d], ix[e] = ix[e], ix[d]
            bc[d], bc[e] = bc[e], bc[d]
            p2.update(aux=a, ix=ix, bc=bc)
            c.update(d=d + 1, d2=e + 1)
            r = 'swap'
        elif rel == 'lift':
            d = rng.randrange(nd)
            p2.update(nd=1, n=[n[d], 1, 1], ix=[p['ix'][d]], bc=[p['bc'][d]])
            m1 = lambda arr: [arr[j] for j in range(n[d])]
            p2.update(q=[m1(x) for x in p['q']], aux=[m1(p['aux'][2 * d]), m1(p['aux'][2 * d + 1])], cap=m1(p['cap']) if p['cap'] else [])
            lift = lambda v: [v[(x, y, z)[d]] for z in range(n[2]) for y in range(n[1]) for x in range(n[0])]
            a = list(p['aux'])
            a[2 * d], a[2 * d + 1] = lift(p2['aux'][0]), lift(p2['aux'][1])
            p = dict(p, q=[lift(x) for x in p2['q']], aux=a, cap=lift(p2['cap']) if p['cap'] else [])
            c['d'] = d + 1
            r = 'lift'
        elif rel == 'affine':
            f, s = rng.choice([2, 3, 5, -2]), rng.randrange(-4, 5)
            p2['q'] = [[f * v + s for v in x] for x in p['q']]
            c.update(fa=f, fb=1, tol=30)
            r = 'same'
        elif rel == 'capa':
            p['cap'] = []
            p2['cap'] = [rng.choice([1, 4, 6])] * (n[0] * n[1] * n[2])
            c.update(fa=2, fb=p2['cap'][0], tol=30)
            r = 'same'
        if p.get('first_only'):
            p['rec_ne'] = p2['rec_ne'] = 1
        add('pair', rel=r, p=p, p2=p2, **c)
    return res


def select(scens, prop, tier):
    return scens if prop == 'C14' else [s for s in scens if s['cfg']['kind'] == 'rate'][::3]
