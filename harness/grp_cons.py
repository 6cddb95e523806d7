"""Group: conservation, constant states, total variation (C11)."""
import random
PROPS = ['C11']
RECORDER = 'rec_cons'
JUDGE = 'ConsTrace'
EQ1 = ['advection_1D', 'burgers_1D', 'traffic_1D', 'cubic_1D', 'acoustics_1D', 'euler_with_efix_1D', 'euler_hlle_1D',
       'shallow_roe_with_efix_1D', 'shallow_hlle_1D', 'traffic_vc_fwave_1D', 'own1D', 'ownf1D']
EQ1P = ['py:advection_1D_py.advection_1D', 'py:burgers_1D_py.burgers_1D', 'py:acoustics_1D_py.acoustics_1D', 'py:euler_1D_py.euler_roe_1D',
        'py:euler_1D_py.euler_hll_1D', 'py:shallow_1D_py.shallow_roe_1D', 'py:shallow_1D_py.shallow_hll_1D', 'own1D', 'ownf1D']
EQ2 = ['advection_2D', 'burgers_2D', 'acoustics_2D', 'euler_4wave_2D', 'euler_hlle_2D', 'shallow_roe_with_efix_2D', 'shallow_hlle_2D',
       'kpp_2D', 'own2D', 'ownf2D']
EQ3 = ['burgers_3D', 'euler_3D', 'vc_acoustics_3D', 'own3D', 'ownf3D']
TR3 = {1: [0, 10, 11, 20, 21, 22], 2: [0, 10, 11, 20, 21, 22]}
INT = ['Euler', 'SSP33', 'SSP104', 'SSPLMMk2', 'SSPLMMk3']


def models(tier, seed):
    m = [dict(module='ConsModel', cfg='ConsModel', workers=6)]
    if tier != 'quick':
        m.append(dict(module='ConsModel', cfg='ConsModelDeep', workers=8, timeout=800))
    return m


def cfg(rng, fam, nd, lang, eq, **kw):
    big = {1: 30, 2: 9, 3: 6}[nd]
    low = {1: 8, 2: 7, 3: 5}[nd]
    c = dict(fam=fam, nd=nd, lang=lang, eq=eq, n=[rng.randrange(low, big + 1) for _ in range(nd)], dx=[rng.choice([0.5, 1.0, 1.25]) for _ in range(nd)],
             capa=int(rng.random() < .35), ord=rng.choice([1, 2, 2, 2]), lim=[rng.choice([0, 1, 2, 3, 4]) for _ in range(5)],
             split=int(rng.random() < .35), nu=rng.choice([0.2, 0.45]) if nd > 1 else rng.choice([0.3, 0.6, 0.9]), lt=rng.choice([1, 2, 2]),
             word=rng.choice([5, 5, 7, 9, 11, 13, 15, 17]), integ=rng.choice(INT), steps=2, seed=rng.randrange(10 ** 6), kind='tot',
             smooth=int(rng.random() < .3))
    c['tr'] = rng.choice([0, 1, 2]) if nd < 3 else rng.choice(TR3[c['ord']])
    if lang == 'Python':
        c['lt'] = 2
        c['word'] = 5
        if fam == 'classic':
            c['lim'] = [rng.randrange(0, 11) for _ in range(5)]
    if fam == 'sharp':
        c['nu'] = 0.1
        c['lim'] = [rng.choice([1, 2, 3, 4])]
        if c['lt'] == 2:
            c['n'] = [max(x, 6) for x in c['n']]
        if c['integ'].startswith('SSPLMM'):
            c['steps'] = 5
    c.update(kw)
    if eq in ('kpp_2D', 'euler_hlle_2D', 'shallow_hlle_2D'):
        c['tr'] = 0            # these have no transverse solver
    if fam == 'sharp' and nd > 1:
        c['word'] = min(c['word'], 13)       # the installed two-dimensional solvers allow no more ghost cells
    if c['kind'] == 'const':
        c['rest'] = int(rng.random() < .3)
    if c.get('wall') is not None:
        c['n'] = [max(x, 10) for x in c['n']]
        c['lim'] = c['lim'][:1] * 5
    return c


def scenarios(beh, tier, seed):
    rng = random.Random(11000 + seed)
    res = []
    k = 1 if tier == 'quick' else 12
    for rep in range(k):
        for fam in ('classic', 'sharp'):
            for eq in EQ1:
                for _ in range(3):
                    res.append(cfg(rng, fam, 1, 'Fortran', eq))
            for eq in EQ1P:
                for _ in range(2):
                    res.append(cfg(rng, fam, 1, 'Python', eq))
            for eq in EQ2:
                for _ in range(4 if fam == 'classic' else 2):
                    res.append(cfg(rng, fam, 2, 'Fortran', eq))
            for eq in EQ3:
                for _ in range(4 if fam == 'classic' else 2):
                    res.append(cfg(rng, fam, 3, 'Fortran', eq))
            for nd, eqs in ((1, EQ1), (2, EQ2), (3, EQ3)):
                for eq in eqs:
                    res.append(cfg(rng, fam, nd, 'Fortran', eq, kind='const'))
            for eq in EQ1P:
                res.append(cfg(rng, fam, 1, 'Python', eq, kind='const'))
            for integ in INT:
                res.append(cfg(rng, fam, 1, 'Fortran', 'burgers_1D', kind='const', integ=integ))
                res[-1]['rest'] = 1
        for eq, nd in (('shallow_roe_with_efix_1D', 1), ('euler_with_efix_1D', 1), ('acoustics_1D', 1), ('acoustics_2D', 2), ('shallow_roe_with_efix_2D', 2),
                       ('euler_4wave_2D', 2)):
            for _ in range(2):
                res.append(cfg(rng, rng.choice(['classic', 'sharp']), nd, 'Fortran', eq, wall=0, capa=0))
        for lang, eq in (('Fortran', 'advection_1D'), ('Python', 'py:advection_1D_py.advection_1D')):
            for lim in (1, 2, 3, 4):
                for nu in (0.1, 0.5, 0.8, 1.0):
                    res.append(cfg(rng, 'classic', 1, lang, eq, kind='tvd', lim=[lim], nu=nu, ord=2, capa=0, steps=3, smooth=0,
                                   vals=rng.choice([[0, 1], [0, 1, 2, 3], [-1, 0, 0.5, 2, 2.25], [0, 1, 100]])))
    return [dict(cfg=c) for c in res]
