"""Group: copies of solutions (C06)."""
import random
PROPS = ['C06']
RECORDER = 'rec_copy'
JUDGE = 'CopyTrace'
KINDS = ['1f', '1v', '1p', '1s', '2f', '2v', '3v', 'mp', 'mp2']


def models(tier, seed):
    return [dict(module='CopyModel', cfg='CopyModel' if tier == 'quick' else 'CopyModelDeep', workers=8, timeout=800),
            dict(module='CopyModel', cfg='CopyModelSim', key='sim', workers=1,
                 extra=['-simulate', 'num=%d' % (400 if tier == 'quick' else 4000), '-depth', '15', '-seed', str(seed)])]


def scenarios(beh, tier, seed):
    rng = random.Random(6000 + seed)
    return [dict(ops=h, seed=rng.randrange(10 ** 6), kind=KINDS[j % len(KINDS)] if rng.random() < 0.5 else rng.choice(KINDS[:6]),
                 map=rng.choice([0, 0, 1, 1, 2]), capa=rng.choice([0, 1]), xaux=rng.choice([0, 1, 2]), t0=rng.choice([0.0, 0.0, 1.7, -2.0]),
                 src=rng.choice([0, 1, 1])) for j, h in enumerate(beh['sim'])]
