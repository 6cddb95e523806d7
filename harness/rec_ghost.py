"""Recorder for boundary filling (GhostTrace.tla): steps too short to change anything, after
which the arrays with ghost cells are read; 1D Python Riemann solvers report what they receive."""
import numpy as np
from clawpack import pyclaw, riemann
from clawpack.pyclaw import BC
OFF = -2147483000
TYPES = dict(extrap=BC.extrap, periodic=BC.periodic, wall=BC.wall, custom=BC.custom)


def ints(a):
    r = np.rint(a)
    ok = np.isfinite(a) & (r == a) & (np.abs(a) < 1e8)
    return [int(x) if o else OFF for x, o in zip(np.where(ok, r, 0).ravel(), ok.ravel())]


def mark(var, d, low, m, x):
    return (700000 if var == 'aux' else 900000) + 10000 * d + (5000 if low else 0) + 100 * m + x


def record(scn):
    b = scn['cfg']
    kind = b['kind']
    nd = int(kind[1])
    cls = {('c', 1): pyclaw.ClawSolver1D, ('c', 2): pyclaw.ClawSolver2D, ('c', 3): pyclaw.ClawSolver3D,
           ('s', 1): pyclaw.SharpClawSolver1D, ('s', 2): pyclaw.SharpClawSolver2D,
           ('s', 3): pyclaw.SharpClawSolver3D}[(kind[0], nd)]
    seen = []
    if kind.endswith('py'):
        base = riemann.acoustics_1D_py.acoustics_1D

        def rp(ql, qr, al, ar, pd):
            seen.append((ql.copy(), qr.copy(), None if al is None else al.copy(), None if ar is None else ar.copy()))
            return base(ql, qr, al, ar, pd)
        s = cls(rp); s.num_eqn = 2; s.num_waves = 2; s.fwave = False; s.kernel_language = 'Python'
    else:
        s = cls({1: riemann.acoustics_1D, 2: riemann.acoustics_2D, 3: riemann.vc_acoustics_3D}[nd])
    ne = nd + 1
    naux = b['naux'] if nd < 3 else 2
    dims = [pyclaw.Dimension(0.0, 1.0, b['n'][i], name='xyz'[i]) for i in range(nd)]
    dom = pyclaw.Domain(dims)
    st = pyclaw.State(dom, ne, naux)
    st.problem_data.update(rho=1.0, bulk=1.0, zz=1.0, cc=1.0)
    if kind[0] == 'c' and nd > 1:
        s.dimensional_split = kind.endswith('s')
    if kind[0] == 's':
        s.time_integrator = b.get('ti', 'Euler')
        s.call_before_step_each_stage = b.get('ti') == 'SSP33'
        s.lim_type = b.get('lt', 2) if not kind.endswith('py') else 2
        if b.get('weno', 5) != 5 and not kind.endswith('py'):
            s.weno_order = b['weno']
    s.dt_variable = False
    s.dt = 1e-290
    s.cfl_max = 1.0
    s.cfl_desired = 0.9
    s.reflect_index = [r - 1 for r in b['rf'][:nd]]
    argbad = []
    cur = {}

    def writer(var, low):
        def fill(state, dim, t, arr, g):
            d = 'xyz'.index(dim.name)
            if (state is not st and b.get('ti') != 'SSP33') or abs(t - st.t) > 1e-200 or g != s.num_ghost or arr.shape[1 + d] != b['n'][d] + 2 * g:
                argbad.append(1)
            v = np.rollaxis(arr, d + 1, 1)
            for i in range(g):
                x = i if low else b['n'][d] + g + i
                for m in range(arr.shape[0]):
                    v[m, x, ...] = mark(var, d + 1, low, m + 1, x + 1)
        if b.get('oldsig', 0):
            def f(state, dim, t, bc, num_ghost):
                fill(state, dim, t, bc, num_ghost)
        else:
            def f(state, dim, t, qbc, auxbc, num_ghost):
                fill(state, dim, t, qbc if var == 'q' else auxbc, num_ghost)
        return f
    s.user_bc_lower = writer('q', True)
    s.user_bc_upper = writer('q', False)
    s.user_aux_bc_lower = writer('aux', True)
    s.user_aux_bc_upper = writer('aux', False)
    rng = np.random.RandomState(b['dseed'])
    ev = []
    sol = pyclaw.Solution(st, dom)
    sol.t = b.get('t0', 0) / 4.0
    for k, f in enumerate(scn['fills']):
        for i in range(nd):
            s.bc_lower[i] = TYPES[f['q']['bl'][i]]
            s.bc_upper[i] = TYPES[f['q']['bu'][i]]
            if naux:
                s.aux_bc_lower[i] = TYPES[f['aux']['bl'][i]]
                s.aux_bc_upper[i] = TYPES[f['aux']['bu'][i]]
            dom.grid.dimensions[i].on_lower_boundary = bool(f['al'][i])
            dom.grid.dimensions[i].on_upper_boundary = bool(f['au'][i])
        st.q[...] = rng.permutation(st.q.size).reshape(st.q.shape) + 1
        if naux:
            st.aux[...] = rng.permutation(st.aux.size).reshape(st.aux.shape) + 1
        q0 = st.q.copy()
        a0 = st.aux.copy() if naux else np.zeros((0,))
        del seen[:]
        # data replaced on the way, by the hook, by the hook of every stage or by the first half of the source term
        late = f.get('late', 0)
        given = {}

        def replace(state, aux):
            state.q[...] = rng.permutation(st.q.size).reshape(st.q.shape) + 1
            given['q'] = state.q.copy()
            if aux and naux:
                st.aux[...] = rng.permutation(st.aux.size).reshape(st.aux.shape) + 1
                given['a'] = st.aux.copy()

        def half(solver, state, dt):
            if 'q' not in given:
                replace(state, False)
        s.before_step = (lambda solver, state: replace(state, state is st)) if late == 1 else (lambda solver, state: None)
        if kind[0] == 'c':
            s.source_split = 2 if late == 2 else 1
            s.step_source = half if late == 2 else None
        s.evolve_to_time(sol)
        q0, a0 = given.get('q', q0), given.get('a', a0)
        qb, ab = s.qbc, s.auxbc
        if kind == 'c1py' and seen:
            # what the Riemann solver was given
            ql, qr, al, ar = seen[-1]
            qb = np.concatenate((ql, qr[:, -1:]), axis=1)
            if naux and al is not None:
                ab = np.concatenate((al, ar[:, -1:]), axis=1)
        ev.append(dict(e='fill', n=b['n'], g=int(s.num_ghost), ne=ne, na=naux,
                       qf=dict(n=b['n'], g=int(s.num_ghost), bl=f['q']['bl'][:nd], bu=f['q']['bu'][:nd],
                               al=f['al'][:nd], au=f['au'][:nd], rf=b['rf'][:nd]),
                       af=dict(n=b['n'], g=int(s.num_ghost), bl=f['aux']['bl'][:nd], bu=f['aux']['bu'][:nd],
                               al=f['al'][:nd], au=f['au'][:nd], rf=[0] * nd),
                       q=ints(q0), a=ints(a0), q2=ints(st.q) if b.get('ti') != 'SSP33' else ints(q0), a2=ints(st.aux) if naux else [],
                       qb=ints(qb), ab=ints(ab) if naux else [], args=int(not argbad)))
    return dict(cfg=b, ev=ev)
