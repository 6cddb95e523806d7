"""Group: Runge-Kutta and multistep integrators (C12, C13)."""
import random
PROPS = ['C12', 'C13']
RECORDER = 'rec_mol'
JUDGE = 'MolTrace'


def models(tier, seed):
    m = [dict(module='MolModel', cfg='MolModel' if tier == 'quick' else 'MolModelDeep', workers=4),
         dict(module='MolGen', cfg='MolGen', key='gen', workers=1,
              extra=['-simulate', 'num=%d' % (700 if tier == 'quick' else 4000), '-depth', '14', '-seed', str(seed)])]
    return m


def scenarios(beh, tier, seed):
    rng = random.Random(12000 + seed)
    res = []
    for b in beh['gen']:
        c = dict(b['c'])
        ops = [dict(o, to=0) for o in b['ops']]
        if rng.random() < .3:
            for o in ops:
                o['to'] = int(rng.random() < .5)
        c['variable'] = 0 if c['ti'] == 'LMM' or (rng.random() < .15 and not any(o['r'] for o in ops)) else 1
        if c['variable'] == 0:
            for o in ops:
                o['h'], o['to'] = ops[0]['h'], 0
        c.update(dt0=ops[0]['h'], dseed=rng.randrange(10 ** 6), pl=rng.randrange(60), capa=rng.choice([0, 0, 1]), lt=2 if c['kind'] == 's1py' else rng.choice([1, 2]),
                 v=1.0, lin=rng.choice([0, 1]), each=int(any(o['r'] for o in ops) or rng.random() < .3),
                 a=[], b=[], c=[], al=[], be=[])
        if c['kind'] == 's1py':
            c['capa'] = 0
        if c['ti'] == 'RK':
            n = rng.randrange(1, 7)
            c['a'] = [[rng.choice([-30, -15, 0, 10, 15, 20, 30, 60]) if j < i else 0 for j in range(n)] for i in range(n)]
            c['b'] = [rng.choice([-15, 0, 10, 20, 30, 60]) for _ in range(n)]
            c['c'] = [0] + [rng.choice([0, 10, 20, 30, 45, 60, sum(c['a'][i])]) for i in range(1, n)]
            if n == 1:
                for o in ops:
                    if o['r']:
                        o['h'], o['r'] = o['r'], 0
                c['dt0'] = ops[0]['h']
        if c['ti'] == 'LMM':
            c['s'] = rng.choice([2, 3, 4, 5])
            c['al'] = [rng.choice([-15, 0, 10, 20, 30, 60]) for _ in range(c['s'])]
            c['be'] = [rng.choice([-15, 0, 10, 20, 30, 60]) for _ in range(c['s'])]
            d = 60 - sum(c['al'])
            c['al'][-1] += d
        if c['variable'] == 0:
            for o in ops:
                o['r'] = 0
        res.append(dict(cfg=c, ops=ops))
    return res


def select(scens, prop, tier):
    return [s for s in scens if ('LMM' in s['cfg']['ti']) == (prop == 'C13')]
