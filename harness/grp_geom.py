"""Group: geometry of grids (C18)."""
import random
PROPS = ['C18']
RECORDER = 'rec_geom'
JUDGE = 'GeomTrace'


def models(tier, seed):
    m = [dict(module='GeomModel', cfg='GeomModel' if tier == 'quick' else 'GeomModelDeep', workers=8, timeout=800),
         dict(module='GeomModel', cfg='GeomModelSim', key='sim', workers=1,
              extra=['-simulate', 'num=%d' % (400 if tier == 'quick' else 4000), '-depth', '40', '-seed', str(seed)])]
    return m


def scenarios(beh, tier, seed):
    rng = random.Random(18000 + seed)
    return [dict(ops=h, seed=rng.randrange(10 ** 6), off=rng.choice([0, 0, -8, -20, 5]), scale=rng.choice([1.0, 1.0, 1.0, 0.3, 1e-4, 1e6, 7.7]),
                 how=rng.choice(['grid', 'ctor', 'patch', 'dims', 'dims']), more=rng.choice([0, 0, 1, 2])) for h in beh['sim']]
