"""Recorder of constructions of solutions (BuildTrace.tla)."""
import contextlib, io, random
import numpy as np
from clawpack import pyclaw


def small(x):
    """a number that should be a small integer"""
    try:
        return int(x) if x == int(x) and abs(x) < 10 ** 6 else -77
    except Exception:
        return -77


def record(scn):
    r = scn['req']
    rng = random.Random(scn['seed'])
    ev = []
    with contextlib.redirect_stdout(io.StringIO()):
        run(scn, r, rng, ev)
    return dict(cfg=r, ev=ev)


def dims(p):
    return [pyclaw.Dimension(lo / 4., up / 4., n, name='xyz'[j]) for j, (n, lo, up) in enumerate(p)]


def run(scn, r, rng, ev):
    pats, ne, na = r['pats'], r['ne'], r['na']
    # the geometry, and the patches states are made on
    gf = r['gf']
    patches = None
    if gf in ('domain', 'patch', 'patches', 'tpatches'):
        patches = [pyclaw.Patch(dims(p)) for p in pats]
        for p, n in zip(patches, rng.sample(range(0, 9), len(patches))):
            p.patch_index = n
            p.level = rng.choice([1, 1, 2, 3])
        geom = dict(domain=lambda: pyclaw.Domain(patches if len(patches) > 1 or rng.random() < .5 else patches[0]), patch=lambda: patches[0],
                    patches=lambda: list(patches), tpatches=lambda: tuple(patches))[gf]()
    elif gf == 'domain3':
        p = pats[0]
        seq = rng.choice([list, tuple])
        geom = pyclaw.Domain(seq(d[1] / 4. for d in p), seq(d[2] / 4. for d in p), seq(d[0] for d in p))
        patches = geom.patches
    elif gf == 'dims':
        geom = dims(pats[0])
    elif gf == 'tdims':
        geom = tuple(dims(pats[0]))
    elif gf == 'dim':
        geom = dims(pats[0])[0]
    else:
        geom = dict(number=5, nothing=None, empty=[], text='x')[gf]
    given = []
    sf = r['sf']
    if sf in ('state', 'states', 'tstates'):
        for p in patches or [pyclaw.Patch(dims(p)) for p in pats]:
            s = pyclaw.State(p, ne, na) if na or rng.random() < .5 else pyclaw.State(p, ne)
            s.q[...] = 0.
            given.append(s)
        arg = given[0] if sf == 'state' else given if sf == 'states' else tuple(given)
    else:
        arg = dict(int=ne, pair=rng.choice([(ne, na), [ne, na]]), none=None, text='3', empty=[], real=2.0)[sf]
    try:
        sol = pyclaw.Solution(arg, geom)
    except Exception:
        ev.append(dict(e='make', raised=1))
        return
    e = dict(e='make', raised=0)
    try:
        e['pats'] = [[[small(d.num_cells), small(4 * d.lower), small(4 * d.upper)] for d in p.dimensions] for p in sol.domain.patches]
        e['names'] = int(all([d.name for d in p.dimensions] == list('xyz')[:len(p.dimensions)] for p in sol.domain.patches))
        e['same'] = int(len(sol.states) == len(given) and all(a is b for a, b in zip(sol.states, given)))
        e['start'] = small(sol.start_frame)
    except Exception:
        e.update(pats=[], names=0, same=0, start=-1)
    auxes = {}
    e['look'] = look(sol, auxes)
    ev.append(e)
    for o in scn['ops']:
        raised = 0
        if o['op'] == 'corder' and (ne == 1 and all(n == 1 for n, lo, up in pats[min(o['k'], len(pats)) - 1])):
            continue                    # one number has no order
        if o['op'] == 'caux' and sol.states[o['k'] - 1].aux.size == 1:
            continue
        try:
            do(sol, o, auxes)
        except Exception:
            raised = 1
        ev.append(dict(e='op', o=o, raised=raised, look=look(sol, auxes)))
    # other forms
    d = dims(pats[0])
    for bad, f in [(0, lambda: pyclaw.Solution()), (1, lambda: pyclaw.Solution(ne, d, 3)), (1, lambda: pyclaw.Solution(nonsense=3)),
                   (1, lambda: pyclaw.State(d, ne)), (1, lambda: pyclaw.State(None, ne)),
                   (1, lambda: pyclaw.Patch(d + d[:1])), (1, lambda: pyclaw.Domain(d + d[-1:]))]:
        raised = 0
        try:
            f()
        except Exception:
            raised = 1
        ev.append(dict(e='other', bad=bad, raised=raised))


def unordered(a, v):
    """the same numbers, not stored in Fortran order: in the order of C if that is another one, or with gaps"""
    b = np.array(a, order='C')
    if b.flags['F_CONTIGUOUS'] or v % 2:
        b = np.zeros(tuple(2 * n for n in a.shape), order='F')[tuple(slice(0, 2 * n, 2) for n in a.shape)]
    return b


def do(sol, o, auxes):
    op, v = o['op'], o['v']
    one = sol.states[o['k'] - 1]
    if op == 't':
        sol.t = v * 1.0
    elif op in ('mp', 'mF'):
        setattr(sol, op, v)
    elif op == 'all_t':
        sol.set_all_states('t', float(v))
    elif op == 'all_cap':
        sol.set_all_states('index_capa', v)
    elif op in ('all_aux', 'keep_aux'):
        a = np.full((1, 2), 9., order='F')
        auxes[id(a)] = (v + 1, a)
        if op == 'all_aux':
            sol.set_all_states('aux', a)
        else:
            sol.set_all_states('aux', a, overwrite=False)
    elif op == 'keep_t':
        sol.set_all_states('t', v + 1000., overwrite=False)
    elif op == 'one_t':
        one.t = float(v)
    elif op == 'one_pd':
        one.problem_data['v'] = v
    elif op == 'one_mp':
        one.mp = v
    elif op == 'corder':
        one.q = unordered(one.q, v)
    elif op == 'caux':
        a = unordered(one.aux, v)
        if id(one.aux) in auxes:
            auxes[id(a)] = (auxes[id(one.aux)][0], a)
        one.aux = a


def look(sol, auxes):
    out = []
    try:
        states = list(sol.states)
        where = {id(p): k + 1 for k, p in enumerate(sol.domain.patches)}
        for s in states:
            cells = tuple(d.num_cells for d in s.patch.dimensions)
            aux = 0 if s.aux is None else auxes[id(s.aux)][0] if id(s.aux) in auxes else 1
            own = aux == 1
            sizes = all(a is None if n == 0 else a.shape == (n,) + cells for a, n in ((s.p, s.mp), (s.F, s.mF)))
            out.append(dict(pat=where.get(id(s.patch), 0), ne=small(s.num_eqn), na=small(s.num_aux), qn=int(s.q.shape == (s.num_eqn,) + cells),
                            aux=aux if not own or s.aux.shape == (s.num_aux,) + cells else -1, t=small(s.t), cap=small(s.index_capa),
                            mp=small(s.mp), mF=small(s.mF), sizes=int(sizes), pd=small(s.problem_data.get('v', 0))))
        b = dict(t=small(sol.t), ne=small(sol.num_eqn), mp=small(sol.mp), mF=small(sol.mF), pd=small(sol.problem_data.get('v', 0)),
                 same=int(sol.state is states[0] and sol.q is states[0].q and sol.aux is states[0].aux and sol.p is states[0].p
                          and sol.F is states[0].F and sol.grid is states[0].patch.grid and sol.patch is sol.domain.patches[0]
                          and sol.num_aux == states[0].num_aux))
        return dict(states=out, base=b, valid=int(bool(sol.is_valid())))
    except Exception as x:
        return dict(states=[], base=dict(t=-1, ne=-1, mp=-1, mF=-1, pd=-1, same=0), valid=-1, why=repr(x))
