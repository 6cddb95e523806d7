"""Group: solutions put together from what they are given (C25)."""
import random
PROPS = ['C25']
RECORDER = 'rec_build'
JUDGE = 'BuildTrace'


def models(tier, seed):
    deep = tier != 'quick'
    return [dict(module='BuildModel', cfg='BuildModelDeep' if deep else 'BuildModel', workers=4, timeout=800),
            dict(module='BuildModel', cfg='BuildModelSim', key='build', workers=1,
                 extra=['-simulate', 'num=%d' % (24000 if deep else 3000), '-depth', '11', '-seed', str(seed)])]


def scenarios(beh, tier, seed):
    rng = random.Random(25000 + seed)
    good, bads = [], []
    for b in beh['build']:
        bad = b['req']['sf'] in ('none', 'text', 'empty', 'real') or b['req']['gf'] in ('number', 'nothing', 'empty', 'text')
        (bads if bad else good).append(dict(b, seed=rng.randrange(10 ** 6)))
    rng.shuffle(good)
    rng.shuffle(bads)
    n = 1 if tier == 'quick' else 10
    return good[:1500 * n] + bads[:300 * n]


def select(scens, prop, tier):
    return scens
