"""Group: regression verdicts (C23) and command lines of applications (C24)."""
import math, random
PROPS = ['C23', 'C24']
RECORDER = 'rec_app'
JUDGE = 'AppTrace'


def models(tier, seed):
    deep = tier != 'quick'
    return [dict(module='VerdictModel', cfg='VerdictModelDeep' if deep else 'VerdictModel', key='ses', workers=1, timeout=800),
            dict(module='ArgvModel', cfg='ArgvModelDeep' if deep else 'ArgvModel', workers=4, timeout=800),
            dict(module='ArgvModel', cfg='ArgvModelSim', key='argv', workers=1,
                 extra=['-simulate', 'num=%d' % (5000 if deep else 500), '-depth', '6', '-seed', str(seed)])]


def _diff(rng):
    n = rng.choice([1, 2, 3, 4, 6, 8, 12])
    while 1:
        x = [rng.randrange(-5, 6) for _ in range(n)]
        y = [v + rng.choice([0, 0, 0, 1, -1, 2, -4]) for v in x]
        if rng.random() < .2:
            y = list(x)
        kind = rng.choice(['abs', 'rel'])
        w = rng.choice([1, 1, 2, 4, 8]) if rng.random() < .6 else 0
        S = sum((a - b) ** 2 for a, b in zip(x, y)); E = sum(a * a for a in x)
        ww = max(w, 1)
        edge = 16 * ww * math.sqrt(S) if kind == 'abs' else 16 * math.sqrt(S / E) if E else 1
        m = max(0, int(edge) + rng.choice([-1, 0, 1, 2, 3, -8, 30])) if rng.random() < .7 else rng.choice([0, 1, 4, 16, 100, 600])
        m = min(m, 2000)
        # on the edge only where the real norms are exact
        if kind == 'rel' and 256 * S == m * m * E and math.isqrt(E) ** 2 != E:
            continue
        r = rng.random()
        if r < .08: x[rng.randrange(n)] = 999999
        elif r < .16: y[rng.randrange(n)] = 999999
        elif r < .2:
            j = rng.randrange(n); x[j] = y[j] = 999999
        return dict(op='diff', kind=kind, x=x, y=y, w=w, m=m, scale=rng.choice([0, 0, 3, -10, 40, -60]), sub=rng.choice([0, 1, 5]),
                    both=int(rng.random() < .2))


def _sol(rng):
    nd = rng.choice([1, 1, 2, 3])
    neq = rng.choice([1, 2, 3]); naux = rng.choice([0, 0, 1, 2])
    ps = []
    for k in rng.sample(range(1, 9), rng.choice([1, 2, 3])):
        ps.append(dict(idx=k, lev=rng.choice([1, 2, 3]), neq=neq, naux=naux, t=5,
                       dims=[[rng.choice([1, 2, 3, 4]), rng.randrange(-4, 5), rng.choice([1, 2, 3])] for _ in range(nd)]))
    return dict(t=5, p=ps)


CHANGES = ['none', 'none', 'order', 'order', 't', 'drop', 'idx', 'lev', 'n', 'lo', 'dx', 'neq', 'naux', 'q', 'q', 'qlast', 'qpair', 'aux', 'auxlast', 'qnan', 'ndim', 'sign']


def scenarios(beh, tier, seed):
    rng = random.Random(23000 + seed)
    out = []
    ses = beh['ses']
    rng.shuffle(ses)
    for b in ses[:400 if tier == 'quick' else len(ses)]:
        out.append(dict(op='session', seed=rng.randrange(10 ** 6), **b))
    for _ in range(160 if tier == 'quick' else 1600):
        out.append(dict(op='diffs', items=[_diff(rng) for _ in range(20)]))
    for _ in range(300 if tier == 'quick' else 3000):
        out.append(dict(op='same', sol=_sol(rng), change=rng.choice(CHANGES), swap=rng.randrange(2), seed=rng.randrange(10 ** 6)))
    for h in beh['argv']:
        n = rng.randrange(0, len(h) + 1)
        out.append(dict(op='main', line=h[:n] if rng.random() < .5 else h, setplot=rng.randrange(2)))
    return out


def select(scens, prop, tier):
    return [s for s in scens if (s['op'] == 'main') == (prop == 'C24')]
