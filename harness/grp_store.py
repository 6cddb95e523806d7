"""Group: frames on disc (C15, C16)."""
import random
PROPS = ['C15', 'C16']
RECORDER = 'rec_store'
JUDGE = 'StoreTrace'
EACH = 200


def models(tier, seed):
    m = [dict(module='StoreModel', cfg='StoreModel', workers=8),
         dict(module='StoreHist', cfg='StoreHist', key='hist', workers=1,
              extra=['-simulate', 'num=%d' % (350 if tier == 'quick' else 3000), '-depth', '40', '-seed', str(seed)])]
    if tier != 'quick':
        m[0] = dict(module='StoreModel', cfg='StoreModelDeep', workers=8, timeout=1500)
    return m


def sol(rng, nd, na, patches=None, small=False):
    if patches is None:
        np_ = rng.choice([1, 1, 1, 2, 3] if not small else [1, 2])
        if not small and rng.random() < .15:
            np_ = 12
        idx = rng.sample(list(range(0, 3 * np_ + 2)) + [99, 100, 1234], np_) if rng.random() < .5 else list(range(1, np_ + 1))
        patches = []
        for j in range(np_):
            n = [rng.choice([1, 2, 3, 4] if nd < 3 or small else [1, 2, 3]) for _ in range(nd)]
            if nd == 1 and not small:
                n = [rng.choice([1, 3, 7, 12])]
            dx = [rng.choice([0.25, 1.0, 0.1, 3.7e-4, 12.5, 1 / 3.]) for _ in range(nd)]
            lo = [rng.choice([0.0, -1.0, 1 / 3., 1234.5678, -0.1, 7e-5]) for _ in range(nd)]
            patches.append(dict(idx=idx[j], lev=rng.choice([1, 1, 2, 5, 12]), n=n, lo=lo, up=[l + k * d for l, k, d in zip(lo, n, dx)]))
    ne = rng.choice([1, 1, 2, 3, 5] if small else [1, 1, 2, 3, 5, 11])
    return dict(nd=nd, patches=patches, ne=ne, na=na, mp=rng.choice([1, 2, 3, ne + 1]), seed=rng.randrange(10 ** 6),
                t=rng.choice([0.0, 1.5, -2.25, 1 / 3., 1234567.891, 1e-12, 0.1]) + rng.randrange(50), mode=rng.choice([0, 0, 1, 2, 3, 4]),
                pd=dict((k, rng.choice([1.5, -2.0, 3])) for k in ['rho', 'bulk', 'u'][:rng.randrange(4)]), map=rng.choice([0, 0, 1, 2]))


OPTS = [None, None, dict(compression='gzip'), dict(compression='gzip', compression_opts=9, shuffle=True), dict(fletcher32=True, chunks=True),
        dict(compression='lzf')]


def common(rng):
    return dict(pres=rng.choice([['', 'sim'], ['', 'out'], ['run1', 'run2'], ['a.b', ''], ['x', 'fort']]),
                frames=rng.choice([[0, 1], [0, 10], [0, 9999], [0, 12345], [0, 7]]), bin=rng.choice(['binary', 'binary64', 'binary32']), ng=rng.randrange(4),
                opts=rng.choice(OPTS), style=rng.randrange(30), seed=rng.randrange(10 ** 6))


def scenarios(beh, tier, seed):
    rng = random.Random(15000 + seed)
    res = []
    for h in beh['hist']:
        nd = rng.choice([1, 2, 3])
        na = rng.choice([0, 1, 2, 12])
        sols = []
        for j in range(4):
            pt = sols[0]['patches'] if j and rng.random() < .5 else None
            d = sols[0]['nd'] if pt else rng.choice([nd, nd, 1, 2, 3])
            a = na if rng.random() < .8 else rng.choice([0, 1, 2, 3])
            sols.append(sol(rng, d, a, pt))
        c = common(rng)
        c.update(kind='hist', sols=sols, ops=h)
        if c['bin'] == 'binary32':
            for s in sols:
                if s['mode'] in (1, 3):
                    s['mode'] = 0
        res.append(c)
    n = 90 if tier == 'quick' else 600
    for j in range(n):
        fmt = ['ascii', 'ascii', 'hdf5', 'binary'][j % 4]
        nd = 1 + (j // 4) % 3
        c = common(rng)
        s = sol(rng, nd, rng.choice([0, 1, 1, 2]), small=True)
        if s['mode'] in (1, 3) and c['bin'] == 'binary32':
            s['mode'] = 0
        if c['bin'] == 'binary':
            c['frames'] = [rng.choice([0, 10]), 1]
        der = int(fmt != 'binary' and rng.random() < .3)
        c.update(kind='damage', sols=[s], op=dict(op='write', fmt=fmt, pre=1, fr=0, s=1, aux=rng.choice([0, 1, 1]), der=der),
                 limit=60 if tier == 'quick' else 10 ** 6)
        res.append(c)
    return res
