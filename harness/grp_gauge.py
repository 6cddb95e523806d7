"""Group: gauge time series in files (C21)."""
import random
PROPS = ['C21']
RECORDER = 'rec_gauge'
JUDGE = 'GaugeTrace'


def models(tier, seed):
    return [dict(module='GaugeModel', cfg='GaugeModel' if tier == 'quick' else 'GaugeModelDeep', workers=8, timeout=800),
            dict(module='GaugeModel', cfg='GaugeModelSim', key='sim', workers=1,
                 extra=['-simulate', 'num=%d' % (600 if tier == 'quick' else 6000), '-depth', '17', '-seed', str(seed)])]


def scenarios(beh, tier, seed):
    rng = random.Random(21000 + seed)
    return [dict(ops=h, seed=rng.randrange(10 ** 6), idkind=rng.choice(['int', 'int', 'np'])) for h in beh['sim']]
