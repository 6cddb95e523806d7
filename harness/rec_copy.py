"""Recorder of histories of solutions and their copies (CopyTrace.tla)."""
import copy, random
import numpy as np
from clawpack import pyclaw, riemann

NM = 'xyz'


def map1(*x):
    return [v + 0.1 * v * v for v in x]


def map2(*x):
    return [2.0 * v + 0.25 for v in x]


def record(scn):
    rng = random.Random(scn['seed'])
    npr = np.random.RandomState(scn['seed'])
    kind = scn['kind']
    multi = kind.startswith('mp')
    nd = 1 + rng.randrange(2) if multi else int(kind[0])
    ne, need = {'1f': (1, 0), '1v': (2, 2), '1p': (1, 0), '1s': (1, 0), '2f': (3, 0), '2v': (1, 2), '3v': (4, 2)}.get(kind, (2, 0))
    n = [rng.randrange(4, 9) for _ in range(nd)] if nd < 3 else [4, 5, 4]
    maps = [None, map1, map2]
    capa = 1 if (scn['capa'] or scn['map']) else 0
    naux = need + scn['xaux'] + capa
    names = {}

    def intern(v):
        return names.setdefault(v, len(names) + 1)

    def state(patch):
        s = pyclaw.State(patch, ne, naux) if naux else pyclaw.State(patch, ne)
        s.q[...] = 1.0 + npr.rand(*s.q.shape)
        if naux:
            s.aux[...] = 0.5 + npr.rand(*s.aux.shape) * 0.5
        if capa:
            s.index_capa = naux - 1
        s.problem_data.update(u=0.5, v=0.25, rho=1.0, bulk=4.0, cc=2.0, zz=2.0, k=1.5)
        s.problem_data['list'] = [1, 2, {'a': 3}]
        s.problem_data['arr'] = np.arange(4.0)
        if kind in ('1f', '1s', '2f', '3v', '1v', '2v'):
            # (a common block of parameters takes numbers only)
            s.problem_data.pop('list'), s.problem_data.pop('arr')
            for x in list(s.problem_data):
                if not used(kind, x):
                    s.problem_data.pop(x)
        if scn['map']:
            s.grid.mapc2p = maps[scn['map']]
        return s

    patches = []
    for j in range(rng.randrange(2, 4) if multi else 1):
        lo = [0.25 * rng.randrange(-4, 4) for _ in range(nd)]
        p = pyclaw.Patch([pyclaw.Dimension(lo[d], lo[d] + 1.0 + 0.25 * rng.randrange(3), n[d] + (j if multi else 0), name=NM[d]) for d in range(nd)])
        if multi:
            p.patch_index = j + 1
            p.level = 1 + j % 2
        p.dimensions[0].units = 'm'
        patches.append(p)
    dom = pyclaw.Domain(patches)
    sts = [state(p) for p in patches]
    sol = pyclaw.Solution(sts if multi else sts[0], dom)
    sol.t = scn['t0']
    objs = [sol]

    def geom(p):
        return [(d.name, float(d.lower), float(d.upper), int(d.num_cells), repr(d.units), float(d.delta)) for d in p.dimensions] + [p.patch_index, p.level] + \
               [tuple(float(v) for v in p.grid.lower), tuple(float(v) for v in p.grid.upper), tuple(int(v) for v in p.grid.num_cells)]

    def by(a):
        if a is None:
            return None
        return (a.shape, str(a.dtype), bool(a.flags['F_CONTIGUOUS']), np.ascontiguousarray(a).tobytes())

    def deep(v):
        if isinstance(v, dict):
            return tuple(sorted((k, deep(x)) for k, x in v.items()))
        if isinstance(v, (list, tuple)):
            return tuple(deep(x) for x in v)
        if isinstance(v, np.ndarray):
            return by(v)
        return repr(v)

    def coords(p):
        g = p.grid
        return tuple(by(np.asarray(x)) for x in list(g.p_centers) + list(g.p_nodes) + list(g.c_centers))

    def content(s):
        S = s.states
        c = [('t', tuple(float(x.t) for x in S)),
             ('q', tuple(by(x.q) for x in S)),
             ('aux', tuple(by(x.aux) for x in S)),
             ('capa', tuple(int(x.index_capa) for x in S)),
             ('pd', tuple(deep(x.problem_data) for x in S)),
             ('geom', repr([geom(x.patch) for x in S] + [geom(p) for p in s.domain.patches])),
             ('map', tuple(coords(x.patch) for x in S) + tuple(coords(p) for p in s.domain.patches)),
             ('lay', (len(S), len(s.domain.patches), tuple((x.num_eqn, x.num_aux) for x in S)))]
        return [intern(x) for x in c]

    def everything():
        return [content(s) for s in objs]

    def solver():
        if kind == '1p':
            from clawpack.riemann import advection_1D_py
            sv = pyclaw.ClawSolver1D(advection_1D_py.advection_1D)
            sv.kernel_language, sv.fwave = 'Python', False
        elif kind == '1s':
            sv = pyclaw.SharpClawSolver1D(riemann.advection_1D)
        else:
            rs = {'1f': 'advection_1D', '1v': 'acoustics_variable_1D', '2f': 'acoustics_2D', '2v': 'vc_advection_2D', '3v': 'vc_acoustics_3D'}[kind]
            sv = [pyclaw.ClawSolver1D, pyclaw.ClawSolver2D, pyclaw.ClawSolver3D][nd - 1](getattr(riemann, rs))
            if kind == '3v':
                sv.num_eqn, sv.num_waves = 4, 2
            if nd > 1:
                sv.dimensional_split = 1
        sv.all_bcs = pyclaw.BC.periodic
        if naux:
            sv.aux_bc_lower = [pyclaw.BC.periodic] * nd
            sv.aux_bc_upper = [pyclaw.BC.periodic] * nd
        sv.dt_variable = True
        sv.dt_initial = sv.dt = 0.02
        if scn['src']:
            if kind == '1s':
                def dq(solver, st, dt):
                    return dt * 0.01 * st.problem_data.get('u', 1.0) * np.asarray(st.grid.p_centers[0]) * st.q
                sv.dq_src = dq
            else:
                def src(solver, st, dt):
                    st.q *= 1.0 + dt * 0.01 * (st.problem_data.get('u', 1.0) + np.asarray(st.grid.p_centers[0]))
                    if st.num_aux:
                        st.q += 1e-3 * dt * st.aux[:1]
                sv.step_source = src

            def before(solver, st):
                if st.num_aux:
                    st.aux[st.num_aux - 1] *= 1.0 + 1e-3
            sv.before_step = before
        return sv

    ev = [dict(e='new', all=everything())]
    last = None
    for o in scn['ops']:
        op = o['op']
        x = (o['x'] - 1) % len(objs)
        s = objs[x]
        if op == 'copy':
            how = o['how']
            if how == 'run' and not multi:
                raised, frames = 0, []
                try:
                    claw = pyclaw.Controller()
                    claw.verbosity = 0
                    claw.solver = solver()
                    claw.solution = s
                    claw.keep_copy = True
                    claw.output_format = None
                    claw.outdir = None
                    claw.tfinal = s.t + 0.06
                    claw.num_output_times = 2
                    claw.run()
                    frames = list(claw.frames)
                    objs[x] = claw.solution
                except Exception as e:
                    raised, last = 1, repr(e)
                objs.extend(frames)
                ev.append(dict(e='run', x=x + 1, k=7, raised=raised, all=everything()))
            else:
                raised = 0
                try:
                    if how == 'state' and not multi:
                        st2 = copy.deepcopy(s.state)
                        c = pyclaw.Solution(st2, pyclaw.Domain(st2.patch))
                    elif how == 'again':
                        c = copy.deepcopy([s, {'x': s}])[0]
                    else:
                        c = copy.deepcopy(s)
                    objs.append(c)
                except Exception as e:
                    raised, last = 1, repr(e)
                ev.append(dict(e='copy', x=x + 1, raised=raised, all=everything()))
        elif op in ('inplace', 'assign'):
            p = o['p']
            st = rng.choice(s.states)
            f = 1.0 + 0.01 * (1 + rng.randrange(5))
            if op == 'inplace':
                if p == 'q':
                    st.q[tuple(rng.randrange(m) for m in st.q.shape)] *= f
                elif p == 'aux' and st.num_aux:
                    st.aux[tuple(rng.randrange(m) for m in st.aux.shape)] *= f
                elif p == 'pd':
                    k = rng.choice(sorted(st.problem_data)) if st.problem_data else None
                    if k == 'list':
                        rng.choice([lambda v: v.append(7), lambda v: v[2].update(b=rng.random())])(st.problem_data[k])
                    elif k == 'arr':
                        st.problem_data[k][1] *= f
                    elif k is not None:
                        st.problem_data[k] *= f
                elif p == 'geom':
                    pt = rng.choice([st.patch, rng.choice(s.domain.patches)])
                    d = rng.choice(pt.dimensions)
                    w = rng.randrange(3)
                    if w == 0:
                        d.upper = d.upper + 0.125
                    elif w == 1:
                        d.lower = d.lower - 0.125
                    else:
                        d.units = rng.choice(['s', 'km', None])
            else:
                if p == 't':
                    s.t = s.t + 0.125 * rng.randrange(1, 4)
                elif p == 'q':
                    st.q = np.asfortranarray(st.q * f)
                elif p == 'aux' and st.num_aux:
                    st.aux = np.asfortranarray(st.aux * f)
                elif p == 'capa' and st.num_aux > need + 1 and scn['xaux']:
                    st.index_capa = rng.randrange(need, st.num_aux)
                elif p == 'pd':
                    st.problem_data = dict(st.problem_data)
                elif p == 'geom':
                    pt = rng.choice([st.patch, rng.choice(s.domain.patches)])
                    pt.patch_index = pt.patch_index + 1
                    pt.level = 3
                elif p == 'map' and capa:
                    pt = rng.choice([st.patch, rng.choice(s.domain.patches)])
                    pt.grid.mapc2p = rng.choice([map1, map2])
            ev.append(dict(e='change', x=x + 1, all=everything()))
        elif op == 'evolve' and not multi:
            raised = 0
            try:
                solver().evolve_to_time(s, s.t + 0.03 * int(o['how']))
            except Exception as e:
                raised, last = 1, repr(e)
            ev.append(dict(e='evolve', x=x + 1, k=int(o['how']), raised=raised, all=everything()))
    return dict(cfg=dict(last=str(last)), ev=ev)


def used(kind, x):
    return x in {'1f': ['u'], '1s': ['u'], '1v': [], '2v': [], '2f': ['rho', 'bulk', 'cc', 'zz'], '3v': []}[kind]
