"""Small simulations with every part a solution can have, shared by recorders."""
import numpy as np
from clawpack import pyclaw, riemann

NM = 'xyz'
NEED = {'1f': (1, 0), '1v': (2, 2), '1p': (1, 0), '1s': (1, 0), '2f': (3, 0), '2v': (1, 2), '2s': (3, 0), '3v': (4, 2)}
DATA = {'1f': dict(u=0.5), '1s': dict(u=0.5), '1p': dict(u=0.5, k=1.5), '1v': {}, '2v': {}, '3v': {},
        '2f': dict(rho=1.0, bulk=4.0, cc=2.0, zz=2.0), '2s': dict(rho=1.0, bulk=4.0, cc=2.0, zz=2.0)}



def lims(l, k):
    """the same limiters in one of the forms a user may give them: a list, or where all are equal one number or a list of one"""
    l = [int(x) for x in l]
    if len(set(l)) == 1 and k % 3:
        return l[0] if k % 3 == 1 else l[:1]
    return l


def map1(*x):
    return [v + 0.1 * v * v for v in x]


def map2(*x):
    return [2.0 * v + 0.25 for v in x]


MAPS = [None, map1, map2]


def solution(c, rng, npr):
    """c: kind, map, capa, xaux, t0"""
    kind = c['kind']
    nd = int(kind[0])
    ne, need = NEED[kind]
    capa = 1 if (c['capa'] or c['map']) else 0
    naux = need + c['xaux'] + capa
    n = [rng.randrange(4, 9) for _ in range(nd)] if nd < 3 else [4, 5, 4]
    lo = [0.25 * rng.randrange(-4, 4) for _ in range(nd)]
    dom = pyclaw.Domain([pyclaw.Dimension(lo[d], lo[d] + 1.0 + 0.25 * rng.randrange(3), n[d], name=NM[d]) for d in range(nd)])
    s = pyclaw.State(dom, ne, naux) if naux else pyclaw.State(dom, ne)
    s.q[...] = 1.0 + npr.rand(*s.q.shape)
    if naux:
        s.aux[...] = 0.5 + npr.rand(*s.aux.shape) * 0.5
    if capa:
        s.index_capa = naux - 1
    s.problem_data.update(DATA[kind])
    if c['map']:
        s.grid.mapc2p = MAPS[c['map']]
    sol = pyclaw.Solution(s, dom)
    sol.t = c['t0']
    return sol


def solver(c, naux, log=None):
    kind = c['kind']
    nd = int(kind[0])
    if kind == '1p':
        from clawpack.riemann import advection_1D_py
        sv = pyclaw.ClawSolver1D(advection_1D_py.advection_1D)
        sv.kernel_language, sv.fwave = 'Python', False
    elif kind == '1s':
        sv = pyclaw.SharpClawSolver1D(riemann.advection_1D)
    elif kind == '2s':
        sv = pyclaw.SharpClawSolver2D(riemann.acoustics_2D)
    else:
        rs = {'1f': 'advection_1D', '1v': 'acoustics_variable_1D', '2f': 'acoustics_2D', '2v': 'vc_advection_2D', '3v': 'vc_acoustics_3D'}[kind]
        sv = [pyclaw.ClawSolver1D, pyclaw.ClawSolver2D, pyclaw.ClawSolver3D][nd - 1](getattr(riemann, rs))
        if kind == '3v':
            sv.num_eqn, sv.num_waves = 4, 2
        if nd > 1:
            sv.dimensional_split = 1
    sv.all_bcs = pyclaw.BC.periodic
    if naux:
        sv.aux_bc_lower = [pyclaw.BC.periodic] * nd
        sv.aux_bc_upper = [pyclaw.BC.periodic] * nd
    sv.dt_variable = True
    sv.dt_initial = sv.dt = 0.02

    def before(solver_, st):
        if log is not None:
            log.append(float(solver_.dt))
        if c['src'] and st.num_aux:
            st.aux[st.num_aux - 1] *= 1.0 + 1e-3
    sv.before_step = before
    if c['src']:
        if kind[1] == 's':
            def dq(solver_, st, dt):
                return dt * 0.01 * st.problem_data.get('u', 1.0) * np.asarray(st.grid.p_centers[0]) * st.q
            sv.dq_src = dq
        else:
            def src(solver_, st, dt):
                st.q *= 1.0 + dt * 0.01 * (st.problem_data.get('u', 1.0) + np.asarray(st.grid.p_centers[0]))
                if st.num_aux:
                    st.q += 1e-3 * dt * st.aux[:1]
            sv.step_source = src
    return sv


def by(a):
    if a is None:
        return None
    return (a.shape, str(a.dtype), bool(a.flags['F_CONTIGUOUS']), np.ascontiguousarray(a).tobytes())


def deep(v):
    if isinstance(v, dict):
        return tuple(sorted((k, deep(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(deep(x) for x in v)
    if isinstance(v, np.ndarray):
        return by(v)
    return repr(v)


def geom(p):
    return [(d.name, float(d.lower), float(d.upper), int(d.num_cells), repr(d.units), float(d.delta)) for d in p.dimensions] + [p.patch_index, p.level] + \
           [tuple(float(v) for v in p.grid.lower), tuple(float(v) for v in p.grid.upper), tuple(int(v) for v in p.grid.num_cells)]


def coords(p):
    g = p.grid
    return tuple(by(np.asarray(x)) for x in list(g.p_centers) + list(g.p_nodes) + list(g.c_centers))


def content(s, intern):
    S = s.states
    c = [('t', tuple(float(x.t) for x in S)),
         ('q', tuple(by(x.q) for x in S)),
         ('aux', tuple(by(x.aux) for x in S)),
         ('capa', tuple(int(x.index_capa) for x in S)),
         ('pd', tuple(deep(x.problem_data) for x in S)),
         ('geom', repr([geom(x.patch) for x in S] + [geom(p) for p in s.domain.patches])),
         ('map', tuple(coords(x.patch) for x in S) + tuple(coords(p) for p in s.domain.patches)),
         ('lay', (len(S), len(s.domain.patches), tuple((x.num_eqn, x.num_aux) for x in S)))]
    return [intern(x) for x in c]
