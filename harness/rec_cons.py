"""Recorder of conservation, constant states and total variation for every solver family (ConsTrace.tla)."""
import math
import numpy as np
import simple
from clawpack import pyclaw, riemann
from clawpack.pyclaw import BC
import ftn
from rec_kernel import sc
S = 5040
F = ('Fortran',)


# ------------------------------------------------------------------ equations: states and parameters
def scal(rng, shape):
    return rng.uniform(-1, 2, size=(1,) + shape)


def traf(rng, shape):
    return rng.uniform(0.05, 0.95, size=(1,) + shape)


def lin(k):
    return lambda rng, shape: rng.uniform(-1, 1, size=(k,) + shape)


def shal(nd):
    def f(rng, shape):
        h = rng.uniform(1, 2, size=shape)
        return np.array([h] + [h * rng.uniform(-.5, .5, size=shape) for _ in range(nd)])
    return f


def eul(nd, extra=0):
    def f(rng, shape):
        rho = rng.uniform(1, 2, size=shape)
        u = [rng.uniform(-.5, .5, size=shape) for _ in range(nd)]
        p = rng.uniform(1, 2, size=shape)
        E = p / 0.4 + 0.5 * rho * sum(x * x for x in u)
        return np.array([rho] + [rho * x for x in u] + [E] + [rng.uniform(0, 1, size=shape) * rho for _ in range(extra)])
    return f


def aconst(*v):
    return lambda rng, shape: np.array([np.full(shape, float(x)) for x in v])


AC = dict(rho=1.0, bulk=4.0, cc=2.0, zz=2.0)
G = dict(gamma=1.4, gamma1=0.4)
SW = dict(grav=1.0, dry_tolerance=1e-3, sea_level=0.0)
# name: (dimensions, kernel languages, state, parameters, other auxiliary values, f-waves, largest speed)
EQ = {
    'advection_1D': (1, F, scal, dict(u=-1.5), None, 0, 1.5),
    'burgers_1D': (1, F, scal, dict(efix=True), None, 0, 2),
    'traffic_1D': (1, F, traf, dict(umax=1.0, efix=True), None, 0, 1),
    'cubic_1D': (1, F, scal, {}, None, 0, 12),
    'acoustics_1D': (1, F, lin(2), AC, None, 0, 2),
    'euler_with_efix_1D': (1, F, eul(1), dict(G, efix=True), None, 0, 2.5),
    'euler_hlle_1D': (1, F, eul(1), G, None, 0, 2.5),
    'shallow_roe_with_efix_1D': (1, F, shal(1), dict(SW, efix=True), None, 0, 2.5),
    'shallow_hlle_1D': (1, F, shal(1), SW, None, 0, 2.5),
    'traffic_vc_fwave_1D': (1, F, traf, {}, lambda r, s: r.uniform(.5, 1.5, size=(1,) + s), 1, 1.5),
    'py:advection_1D_py.advection_1D': (1, ('Python',), scal, dict(u=1.5), None, 0, 1.5),
    'py:burgers_1D_py.burgers_1D': (1, ('Python',), scal, dict(efix=True), None, 0, 2),
    'py:acoustics_1D_py.acoustics_1D': (1, ('Python',), lin(2), AC, None, 0, 2),
    'py:euler_1D_py.euler_roe_1D': (1, ('Python',), eul(1), dict(G, efix=False), None, 0, 2.5),
    'py:euler_1D_py.euler_hll_1D': (1, ('Python',), eul(1), G, None, 0, 2.5),
    'py:shallow_1D_py.shallow_roe_1D': (1, ('Python',), shal(1), dict(SW, efix=False), None, 0, 2.5),
    'py:shallow_1D_py.shallow_hll_1D': (1, ('Python',), shal(1), SW, None, 0, 2.5),
    'advection_2D': (2, F, scal, dict(u=1.5, v=-1.0), None, 0, 1.5),
    'burgers_2D': (2, F, scal, dict(efix=True), None, 0, 2),
    'acoustics_2D': (2, F, lin(3), AC, None, 0, 2),
    'euler_4wave_2D': (2, F, eul(2), G, None, 0, 2.5),
    'euler_hlle_2D': (2, F, eul(2), G, None, 0, 2.5),
    'shallow_roe_with_efix_2D': (2, F, shal(2), SW, None, 0, 2.5),
    'shallow_hlle_2D': (2, F, shal(2), SW, None, 0, 2.5),
    'kpp_2D': (2, F, scal, {}, None, 0, 1.5),
    'burgers_3D': (3, F, scal, dict(coeff=np.array([1.0, -0.5, 0.75])), None, 0, 2),
    'euler_3D': (3, F, eul(3), G, None, 0, 2.5),
    'vc_acoustics_3D': (3, F, lin(4), {}, aconst(2.0, 1.5), 0, 1.5),
}
for _nd in (1, 2, 3):
    EQ['own%dD' % _nd] = (_nd, F + (('Python',) if _nd == 1 else ()), lambda r, s: r.randint(-4, 5, size=(2,) + s).astype(float), {}, None, 0, 6)
    EQ['ownf%dD' % _nd] = (_nd, F + (('Python',) if _nd == 1 else ()), lambda r, s: r.randint(-4, 5, size=(2,) + s).astype(float), {}, None, 1, 6)


def own_rp(nd, lang, fw, err):
    """two coupled quantities with different quadratic fluxes in each direction, split between the sides arbitrarily"""
    co = [(1.0, 0.5, 0.25), (-0.5, 1.0, 0.5), (0.75, -0.25, 1.0)]

    def flux(d, q):
        a, b, c = co[d]
        return np.array([a * q[0] * q[0] / 2 + b * q[1], c * q[1] + b * q[0] * q[1] / 2])

    def rp(ixy, ql, qr):
        d = ixy - 1
        df = flux(d, qr) - flux(d, ql)
        th = 0.5 + 0.25 * np.sin(3 * ql[0] + 5 * qr[1] + d)
        s = np.array([-1.0 - 0.25 * abs(ql[0]), 0.5 + 0.5 * abs(qr[1])])
        w = np.zeros((2, 2) + ql.shape[1:])
        J = df if fw else qr - ql
        w[:, 0] = (1 - th) * J
        w[:, 1] = th * J
        return w, s, (1 - th) * df, th * df

    def rpt(lead, A, ql, qr):
        return -0.5 * A - 0.25 * A[::-1], 0.75 * A + 0.25 * A[::-1]
    if nd == 1 and lang == 'Python':
        return lambda ql, qr, al, ar, pd: rp(1, ql, qr)
    if nd == 1:
        return ftn.RP(rp1=ftn.rp1(lambda ql, qr, al, ar: rp(1, ql, qr), err))
    if nd == 2:
        return ftn.RP(rpn2=ftn.rpn2(rp, err), rpt2=ftn.rpt2(rpt, err))
    return ftn.RP(rpn3=ftn.rpn3(rp, err), rpt3=ftn.rpt3(rpt, err), rptt3=ftn.rptt3(rpt, err))


def setup(c, rng, const=False):
    nd, langs, state, data, oaux, fw, smax = EQ[c['eq']]
    err = []
    name = c['eq']
    lang = c['lang']
    if name.startswith('own'):
        rp = own_rp(nd, lang, fw, err)
    elif name.startswith('py:'):
        mod, f = name[3:].split('.')
        rp = getattr(getattr(riemann, mod), f)
    else:
        rp = getattr(riemann, name)
    cls = dict(classic={1: pyclaw.ClawSolver1D, 2: pyclaw.ClawSolver2D, 3: pyclaw.ClawSolver3D},
               sharp={1: pyclaw.SharpClawSolver1D, 2: pyclaw.SharpClawSolver2D, 3: pyclaw.SharpClawSolver3D})[c['fam']][nd]
    sv = cls(rp)
    sv.kernel_language = lang
    n = tuple(c['n'])
    q = state(rng, n)
    if const and c.get('rest') and 'euler' not in name:
        q[1:] = 0.0            # nothing moves
        if name.startswith('own') or name[:3] in ('adv', 'bur', 'tra', 'cub', 'aco', 'vc_', 'kpp') or q.shape[0] == 1:
            q[...] = 0.0
    if const:
        q[...] = q[(slice(None),) + (slice(0, 1),) * nd]
    elif c.get('smooth'):
        # a few large plateaus with jumps: strong waves next to constant regions
        ix = np.ix_(*[np.repeat(np.arange((m + 2) // 3), 3)[:m] for m in n])
        q = q[(slice(None),) + ix]
    ne = q.shape[0]
    nw = {'own': 2}.get(name[:3])
    if nw is None:
        from clawpack.riemann import static
        if name in static.num_waves:
            nw = static.num_waves[name]
        elif name.startswith('py:'):
            nw = {'advection': 1, 'burgers': 1, 'acoustics': 2, 'euler': 3, 'shallow': 2}[name[3:].split('_')[0]]
            if 'hll' in name:
                nw = 2
        else:
            nw = {'vc_acoustics_3D': 2, 'burgers_3D': 1}[name]
    sv.num_eqn, sv.num_waves, sv.fwave = ne, nw, bool(fw)
    dom = pyclaw.Domain([pyclaw.Dimension(0.0, m * c['dx'][i], m, name='xyz'[i]) for i, m in enumerate(n)])
    oa = oaux(rng, n) if oaux else np.zeros((0,) + n)
    if const and oaux:
        oa[...] = oa[(slice(None),) + (slice(0, 1),) * nd]
    st = pyclaw.State(dom, ne, oa.shape[0] + (1 if c['capa'] else 0))
    st.problem_data.update(data)
    st.q[...] = q
    kap = np.ones(n)
    if oa.shape[0]:
        st.aux[:oa.shape[0]] = oa
    if c['capa']:
        kap = rng.choice([0.5, 1.0, 2.0], size=n)
        st.index_capa = oa.shape[0]
        st.aux[-1] = kap
    for d in range(nd):
        sv.bc_lower[d] = sv.bc_upper[d] = sv.aux_bc_lower[d] = sv.aux_bc_upper[d] = BC.periodic
    if c.get('wall') is not None:
        d = c['wall']
        sv.bc_lower[d] = sv.bc_upper[d] = sv.aux_bc_lower[d] = sv.aux_bc_upper[d] = BC.wall
    if c['fam'] == 'classic':
        sv.order = c['ord']
        sv.limiters = simple.lims((c['lim'] * 5)[:nw], n[0])
        if nd > 1:
            sv.dimensional_split = bool(c['split'])
            if not c['split']:
                sv.transverse_waves = c['tr']
        sv.cfl_max, sv.cfl_desired = 1e6, 1e5
    else:
        sv.lim_type, sv.weno_order, sv.char_decomp = c['lt'], c['word'], 0
        sv.limiters = [int(c['lim'][0])]
        sv.time_integrator = c['integ']
        if c['integ'].startswith('SSPLMM'):
            sv.lmm_steps = 3 if c['integ'] == 'SSPLMMk2' else 4
            sv.check_lmm_cond = False
        sv.cfl_max, sv.cfl_desired = 1e6, 1e5
    sv.dt_variable = False
    h = min(c['dx'])
    sv.dt = c['nu'] * h / smax / (2.0 if c['capa'] else 1.0)
    return sv, pyclaw.Solution(st, dom), kap, err


def units(x, scale):
    v = x / (1e-13 * scale)
    return int(np.clip(np.rint(v), -2 * 10 ** 9, 2 * 10 ** 9)) if np.isfinite(v) else 2 * 10 ** 9


def record(scn):
    c = scn['cfg']
    rng = np.random.RandomState(c['seed'])
    ev = []
    if c['kind'] == 'tvd':
        sv, sol, kap, err = setup(c, rng)
        q1 = rng.choice(c['vals'], size=c['n'][0]).astype(float)
        sol.state.q[0] = q1
        for _ in range(c['steps']):
            a = sol.state.q[0].copy()
            sv.evolve_to_time(sol)
            ev.append(dict(e='tvd', q1=[sc(x, 10 ** 6) for x in a], q2=[sc(x, 10 ** 6) for x in sol.state.q[0]]))
        return dict(cfg=dict(kind='tvd', lim=c['lim']), ev=ev)
    if c['kind'] == 'const':
        sv, sol, kap, err = setup(c, rng, const=True)
        q0 = sol.state.q.copy()
        for _ in range(c['steps']):
            sv.evolve_to_time(sol)
        if err:
            raise RuntimeError(err[0])
        sq = max(1.0, np.abs(q0).max())
        dev = [max((units(x, sq) for x in (sol.state.q[m] - q0[m]).ravel()), key=abs) for m in range(q0.shape[0])]
        return dict(cfg=dict(kind='const', eq=c['eq']), ev=[dict(e='const', dev=dev)])
    sv, sol, kap, err = setup(c, rng)
    for _ in range(c['steps']):
        q0 = sol.state.q.copy()
        sv.evolve_to_time(sol)
        if err:
            raise RuntimeError(err[0])
        q1 = sol.state.q
        fin = bool(np.all(np.isfinite(q1)))
        scale = max(float((kap * (abs(q0[m]) + abs(q1[m]))).sum()) for m in range(q0.shape[0])) if fin else 1.0
        comps = range(q0.shape[0]) if c.get('wall') is None else [0]
        unit = 1e5 / max(1.0, scale)
        dq = [[int(np.rint(x * unit)) for x in (kap * (q1[m] - q0[m])).ravel()] if fin else [] for m in comps]
        tot = [units(math.fsum((kap * q1[m]).ravel()) - math.fsum((kap * q0[m]).ravel()), scale) if fin else 0 for m in comps]
        ev.append(dict(e='tot', dq=dq, tot=tot, steps=1, fin=int(fin), moved=int((not fin) or bool(np.abs(q1 - q0).max() > 1e-6))))
        if not fin:
            break
    return dict(cfg=dict(kind='tot', eq=c['eq']), ev=ev)
