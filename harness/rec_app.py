"""Recorder of regression verdicts and of command lines (AppTrace.tla)."""
import contextlib, copy, io, json, math, random, sys
import numpy as np
from clawpack import pyclaw
from clawpack.pyclaw import util
NAN = 999999
FIRST = ['12', '-3', '0', '1', '2.5', '1e3', '-0.125', '1E-2', 'True', 'False', 'true', 'false', 'null', 'TRUE', 'abc', 'None', '"12"', '',
         '[1, 2.5, "x", null]', '{"a": [true]}', '[1, 2', '007', '1d3', './out/x y', '--flag', ' 5 ', '123456789012345678901']


def record(scn):
    with contextlib.redirect_stdout(io.StringIO()):
        return dict(cfg={}, ev=globals()['do_' + scn['op']](scn))


# --- check_diff -------------------------------------------------------------------------------------------------------
def do_diffs(scn):
    return [one_diff(c) for c in scn['items']]


def one_diff(c):
    sc = 2.0 ** c['scale']
    f = lambda a: np.array([np.nan if v == NAN else v * sc for v in a])
    x, y = f(c['x']), f(c['y'])
    n = len(c['x'])
    if n % 4 == 0:
        x, y = x.reshape(2, 2, n // 4), y.reshape(2, 2, n // 4)
    elif n % 2 == 0:
        x, y = x.reshape(2, n // 2, order='F'), y.reshape(2, n // 2, order='F')
    kw = {}
    unit = sc
    if c['w']:
        # the product of the widths is w * 2^-sub
        kw['delta'] = [float(c['w']), 2.0 ** -c['sub']] if c['sub'] else (float(c['w']),)
        unit = sc * 2.0 ** -c['sub']
    kw['abstol' if c['kind'] == 'abs' else 'reltol'] = c['m'] / 16. * (unit if c['kind'] == 'abs' else 1.)
    x0, y0 = x.copy(), y.copy()
    e = dict(e='diff', kind=c['kind'], x=c['x'], y=c['y'], w=max(c['w'], 1), m=c['m'], ret='error', norms=[])
    try:
        r = util.check_diff(x, y, **kw)
    except Exception:
        return e
    if not (np.array_equal(x, x0, equal_nan=True) and np.array_equal(y, y0, equal_nan=True)):
        return e
    e['ret'] = 'none' if r is None else 'report'
    if r is not None and NAN not in c['x'] + c['y']:
        for v in r[:3]:
            s = (float(v) / unit) ** 2
            k = round(s) if s == s and s < 1e9 else -1
            e['norms'].append(k if abs(s - k) <= 1e-9 * max(1, k) else -1)
    return e


# --- check_solutions_are_same -----------------------------------------------------------------------------------------
def build(s, rng):
    rng = random.Random(rng)
    states = []
    for p in s['p']:
        dims = [pyclaw.Dimension(lo / 4., lo / 4. + n * dx / 8., n, name='xyz'[j]) for j, (n, lo, dx) in enumerate(p['dims'])]
        patch = pyclaw.Patch(dims)
        patch.patch_index = p['idx']; patch.level = p['lev']
        st = pyclaw.State(patch, p['neq'], p['naux'])
        r = np.random.RandomState(7 * p['idx'] + 1)
        st.q[...] = r.randint(-50, 50, st.q.shape) / 8.
        if p['naux']:
            st.aux[...] = r.randint(-50, 50, st.aux.shape) / 8.
        st.t = p['t'] / 4.
        states.append(st)
    return pyclaw.Solution(states, pyclaw.Domain([st.patch for st in states]))


def names(sols, descs):
    """Data of equal value in two solutions get equal names."""
    seen = []
    def name(a):
        for k, b in enumerate(seen):
            if (a is None) == (b is None) and (a is None or a.shape == b.shape and np.array_equal(a, b)):
                return k
        seen.append(None if a is None else np.array(a))
        return len(seen) - 1
    out = []
    for sol, d in zip(sols, descs):
        out.append(dict(t=d['t'], p=[dict(idx=p['idx'], lev=p['lev'], neq=p['neq'], naux=p['naux'], t=p['t'], dims=p['dims'],
                                          q=name(st.q), aux=name(st.aux) if p['naux'] else -1) for st, p in zip(sol.states, d['p'])]))
    return out


def do_same(scn):
    rng = random.Random(scn['seed'])
    a, b = scn['sol'], copy.deepcopy(scn['sol'])
    ch = scn['change']
    j = rng.randrange(len(b['p'])); p = b['p'][j]
    if ch == 'order': rng.shuffle(b['p'])
    elif ch == 't':
        b['t'] = 6
        for x in b['p']: x['t'] = 6
    elif ch == 'drop': b['p'].append(dict(copy.deepcopy(p), idx=77)) if len(b['p']) == 1 or rng.random() < .5 else b['p'].pop(j)
    elif ch == 'idx': p['idx'] = 55
    elif ch == 'lev': p['lev'] += 1
    elif ch in ('n', 'lo', 'dx'): p['dims'][rng.randrange(len(p['dims']))][['n', 'lo', 'dx'].index(ch)] += 1
    elif ch == 'neq':
        for x in b['p']: x['neq'] += 1
    elif ch == 'naux':
        for x in b['p']: x['naux'] += 1
    elif ch == 'ndim':
        for s in (a, b):
            for x in s['p']: x['dims'] = x['dims'][:2]
        for x in b['p']:
            if len(x['dims']) == 2: x['dims'] = x['dims'][:1]
            else: x['dims'] = x['dims'] + [[1, 0, 1]]
    A, Bs = build(a, 1), build(b, 1)
    # with other data, extents, ... the rest of the patch is still the same where it can be
    st = Bs.states[min(j, len(Bs.states) - 1)]
    sa = [x for x in A.states if x.patch.patch_index == st.patch.patch_index]
    for x in A.states:
        for y in Bs.states:
            if y.patch.patch_index == x.patch.patch_index:
                if y.q.shape == x.q.shape: y.q[...] = x.q
                if x.aux is not None and y.aux is not None and x.aux.shape == y.aux.shape: y.aux[...] = x.aux
                if ch == 'ndim' and y.q.size == x.q.size: y.q[...] = x.q.reshape(y.q.shape)
    if ch == 'ndim' and rng.random() < .5:       # equal wherever they are compared
        for x in A.states + Bs.states: x.q[...] = 1.
    big = rng.choice([1e-4, .5, 1e6]) * rng.choice([-1, 1])
    if ch == 'q': st.q.flat[rng.randrange(st.q.size)] += big
    elif ch == 'qlast': st.q[(-1,) * st.q.ndim] += big
    elif ch == 'qpair' and st.q.size > 1:
        k1, k2 = rng.sample(range(st.q.size), 2)
        st.q.flat[k1] += big; st.q.flat[k2] -= big
    elif ch == 'sign': st.q[...] = -st.q
    elif ch == 'qnan': st.q.flat[rng.randrange(st.q.size)] = np.nan
    elif ch == 'aux' and st.aux is not None: st.aux.flat[rng.randrange(st.aux.size)] += big
    elif ch == 'auxlast' and st.aux is not None: st.aux[(-1,) * st.aux.ndim] += big
    sols, descs = (A, Bs), (a, b)
    if scn['swap']:
        sols, descs = sols[::-1], descs[::-1]
    d = names(sols, descs)
    try:
        util.check_solutions_are_same(*sols)
        raised = 0
    except Exception:
        raised = 1
    return [dict(e='same', a=d[0], b=d[1], raised=raised)]


# --- sessions ---------------------------------------------------------------------------------------------------------
class World:
    log = None
    out = None
    extra = None
W = World()


class Claw:
    def __init__(self, kw): self.kw = kw; self.ran = 0
    def run(self):
        self.ran += 1
        W.log.append(('run', self))
        return {}


def application(**kw):
    c = Claw(dict(kw))
    W.log.append(('make', c))
    if W.out.get(kw.get('kernel_language')) == 'crash':
        raise RuntimeError('application')
    return c


def verifier(claw):
    W.log.append(('check', claw))
    return None if W.out.get(claw.kw.get('kernel_language')) == 'same' else W.report


def word(f):
    try:
        f()
        return 'ok'
    except util.VerifyError:
        return 'verify'
    except RuntimeError:
        return 'crash'
    except Exception:
        return 'other'


def take(log):
    """the runs in a log: one per application made"""
    runs = []
    for what, c in log:
        if what == 'make':
            runs.append(dict(c=c, steps=[]))
        r = [r for r in runs if r['c'] is c]
        (r[0] if r else runs[-1] if runs else dict(steps=[]))['steps'].append(what)
    return runs


def do_session(scn):
    rng = random.Random(scn['seed'])
    W.extra = rng.choice([{}, dict(n=3), dict(outdir='x', solver_type='sharpclaw'), dict(weno_order=17, test=[1])])
    W.report = rng.choice([(1.0, 2.0, 1.0, 'abstol  : 0'), (0., 0., 0., ''), (3., 3., 1e-9, 'reltol  : 1e-12'), (2., 1., 1., 'reltol  : 0.1'),
                           [np.float64(5.), np.float64('nan'), np.float64('nan'), 'abstol  : 1'], (np.inf, 0, 7, 'abstol'), (1e-30, -1., 2., None)])
    W.out = {l: o for l, o in scn['vars']}
    langs = [l for l, o in scn['vars']]
    if rng.random() < .5: langs = tuple(langs)
    W.log = []
    got = []
    def add(runs, w):
        for k, r in enumerate(runs):
            kw = dict(r['c'].kw)
            lang = kw.pop('kernel_language', '?')
            ok = kw.pop('use_petsc', None) is False and kw == W.extra
            got.append(dict(lang=lang, extra=int(ok), steps=r['steps'], word=w if k == len(runs) - 1 else 'ok'))
        if not runs:
            got.append(dict(lang='?', extra=0, steps=[], word=w))
    made = 0
    if scn['mode'] == 'batch':
        w = word(lambda: util.test_app_variants(application, verifier, langs, **W.extra))
        add(take(W.log), w)
    elif scn['mode'] == 'lazy':
        for t in util.gen_variants(application, verifier, kernel_languages=langs, **W.extra):
            made += 1
            W.log = []
            w = word(t)
            add(take(W.log), w)
    else:
        ts = list(util.gen_variants(application, verifier, kernel_languages=langs, **W.extra))
        made = len(ts)
        for l in scn['order']:
            if list(langs).index(l) < len(ts):
                W.log = []
                w = word(ts[list(langs).index(l)])
                add(take(W.log), w)
    return [dict(e='session', mode=scn['mode'], vars=scn['vars'], order=scn['order'], made=made, got=got)]


# --- command lines ----------------------------------------------------------------------------------------------------
def tag(v):
    if v is None: return 'none'
    if isinstance(v, bool): return 'bool %s' % v
    if isinstance(v, int): return 'int %d' % v
    if isinstance(v, float): return 'float %r' % v
    if isinstance(v, str): return 'str ' + v
    return type(v).__name__ + ' ' + json.dumps(v)


def do_main(scn):
    argv = ['prog.py']
    for t in scn['line']:
        x = FIRST[t['v'] - 1]
        argv.append(x if t['f'] == 'pos' else t['k'] + '=' + x if t['f'] == 'kv' else t['k'] + '=' + x + '=' + x)
    got = dict(kw=None, made=0, ran=0, plots=[])
    class App:
        def run(self): got['ran'] += 1; return {}
    objs = []
    def app(**kw):
        got['made'] += 1; got['kw'] = dict(kw); objs.append(App())
        return objs[-1]
    mark = object()
    def stub(kind):
        def f(outdir='./_output', file_format='ascii', setplot=None, **kw):
            got['plots'].append(dict(kind=kind, dir=tag(outdir), setplot=int(setplot is mark), after=int(got['ran'] == 1)))
        return f
    import clawpack.pyclaw.plot as plot
    old = sys.argv, plot.html_plot, plot.interactive_plot
    sys.argv = argv
    plot.html_plot, plot.interactive_plot = stub('html'), stub('inter')
    raised = 0; r = None
    try:
        r = util.run_app_from_main(app, mark) if scn['setplot'] else util.run_app_from_main(app)
    except Exception:
        raised = 1
    finally:
        sys.argv, plot.html_plot, plot.interactive_plot = old
    return [dict(e='main', line=scn['line'], setplot=scn['setplot'], raised=raised, kw=[[k, tag(v)] for k, v in (got['kw'] or {}).items()],
                 made=got['made'], ran=got['ran'], same=int(bool(objs) and r is objs[0]), plots=got['plots'])]
