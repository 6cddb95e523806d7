"""Group: misconfigured runs (C19)."""
import random
PROPS = ['C19']
RECORDER = 'rec_config'
JUDGE = 'ConfigTrace'


def models(tier, seed):
    m = [dict(module='ConfigModel', cfg='ConfigModel', key='cfgs', workers=8, timeout=800)]
    if tier != 'quick':
        m.append(dict(module='ConfigModel', cfg='ConfigModelDeep', workers=8, timeout=800))
    return m


def scenarios(beh, tier, seed):
    rng = random.Random(19000 + seed)
    cs = sorted(beh['cfgs'], key=lambda c: (c['fam'], c['route'], c['aux'], sorted(c['bad'])))
    pairs = [c for c in cs if len(c['bad']) == 2]
    if tier == 'quick':
        pairs = rng.sample(pairs, min(len(pairs), 500))
    few = [c for c in cs if len(c['bad']) <= 1]
    out = []
    for c in few * (2 if tier == 'quick' else 6) + pairs * (1 if tier == 'quick' else 2):
        out.append(dict(c, bad=sorted(c['bad']), seed=rng.randrange(10 ** 6)))
    good = [c for c in cs if not c['bad']]
    for j in range(150 if tier == 'quick' else 1500):
        out.append(dict(rng.choice(good), bad=[], seed=rng.randrange(10 ** 6)))
    rng.shuffle(out)
    return out
