"""Group: watching a simulation (C17)."""
import random
PROPS = ['C17']
RECORDER = 'rec_obs'
JUDGE = 'ObsTrace'
KINDS = ['1f', '1v', '1p', '1s', '2f', '2v', '2s', '3v']


def models(tier, seed):
    return [dict(module='ObsModel', cfg='ObsModel' if tier == 'quick' else 'ObsModelDeep', workers=8, timeout=800),
            dict(module='ObsModel', cfg='ObsModelSim', key='sim', workers=1,
                 extra=['-simulate', 'num=%d' % (240 if tier == 'quick' else 2400), '-depth', '26', '-seed', str(seed)])]


def scenarios(beh, tier, seed):
    rng = random.Random(17000 + seed)
    out = []
    for j, h in enumerate(beh['sim']):
        kind = KINDS[j % len(KINDS)] if rng.random() < 0.6 else rng.choice(KINDS[:6])
        ops = [dict(op=o, x=rng.randrange(10 ** 6)) for o in h]
        out.append(dict(ops=ops, seed=rng.randrange(10 ** 6), kind=kind, map=rng.choice([0, 0, 1, 2]), capa=rng.choice([0, 1]),
                        xaux=rng.choice([0, 1, 2]), t0=rng.choice([0.0, 0.0, 1.5]), src=rng.choice([0, 1, 1])))
    return out
