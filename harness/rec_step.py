"""Recorder for the time-stepping specification (StepTrace.tla): replays scripted behaviours
(end times, single steps, step limits and the wave speeds each attempted step meets) on a
real solver and records what the hooks, source functions and boundary functions observe."""
import os, shutil, tempfile
import numpy as np
from clawpack import pyclaw, riemann
from clawpack.pyclaw import BC

OFF = -2147483000
TICK = 16.0                      # ticks per unit of time
SC = 1.0                         # and the unit of time of the scenario (speeds are measured in its inverse)
CU = 1.0                         # and of Courant numbers


def ticks(x, per=1):
    """x in ticks (times per); OFF if it is not one"""
    y = float(x) / SC * TICK * per
    r = round(y) if abs(y) < 1e9 else None
    if r is None or abs(y - r) > 1e-7 * max(1.0, abs(y)):
        return OFF
    return int(r)


def cmax(x):
    """largest recorded Courant number; -1: none yet"""
    return -1 if x < 0 else ticks(float(x) * SC / CU)


def two_wave_rp(ql, qr, auxl, auxr, pd):
    """two independent advection equations with speeds pd['speeds']"""
    n = ql.shape[1]
    wave = np.zeros((2, 2, n)); s = np.zeros((2, n))
    amdq = np.zeros((2, n)); apdq = np.zeros((2, n))
    for p in range(2):
        wave[p, p] = qr[p] - ql[p]
        s[p] = pd['speeds'][p]
        amdq[p] = min(pd['speeds'][p], 0) * wave[p, p]
        apdq[p] = max(pd['speeds'][p], 0) * wave[p, p]
    return wave, s, amdq, apdq


class Sim:
    """One solver/solution pair whose wave speeds can be scripted."""
    def __init__(self, b):
        global SC, CU
        CU = 2.0 ** b.get('cu', 0)
        SC = 2.0 ** b.get('ts', 0)
        kind = b['kind']
        self.b = b
        cap = b.get('capa', 0)
        nd = int(kind[1])
        self.nd = nd
        cls = {('c', 1): pyclaw.ClawSolver1D, ('c', 2): pyclaw.ClawSolver2D, ('c', 3): pyclaw.ClawSolver3D,
               ('s', 1): pyclaw.SharpClawSolver1D, ('s', 2): pyclaw.SharpClawSolver2D,
               ('s', 3): pyclaw.SharpClawSolver3D}[(kind[0], nd)]
        self.py = kind.endswith('py') or kind.endswith('py2')
        self.two = kind.endswith('py2')
        if self.two:
            s = cls(two_wave_rp); s.num_waves = 2; s.num_eqn = 2; s.kernel_language = 'Python'; s.fwave = False
        elif self.py:
            s = cls(riemann.advection_1D_py.advection_1D); s.kernel_language = 'Python'
        else:
            s = cls({1: riemann.advection_color_1D, 2: riemann.vc_advection_2D, 3: riemann.vc_advection_3D}[nd])
            s.num_eqn = 1; s.num_waves = 1; s.fwave = False
        ncell = {1: [7], 2: [6, 5], 3: [4, 5, 4]}[nd]
        dx = {1: [1.0], 2: [1.0, 2.0], 3: [1.0, 2.0, 0.5]}[nd]
        self.dx = dx
        dims = [pyclaw.Dimension(0.0, ncell[i] * dx[i], ncell[i], name='xyz'[i]) for i in range(nd)]
        dom = pyclaw.Domain(dims)
        naux = (0 if self.py else nd) + (1 if cap else 0)
        st = pyclaw.State(dom, 2 if self.two else 1, naux)
        if self.two:
            st.problem_data['speeds'] = [0.0, 0.0]
        elif self.py:
            st.problem_data['u'] = 0.0
        else:
            st.aux[...] = 0.0
        rng = np.random.RandomState(b.get('dseed', 1))
        st.q[...] = rng.randint(-8, 9, size=st.q.shape)
        self.pl = b.get('pl', 0)
        if cap:
            st.index_capa = naux - 1
            st.aux[naux - 1, ...] = [2.0, 4.0][cap % 2]
            st.aux[naux - 1].flat[(self.pl * 7) % st.aux[naux - 1].size] = 1.0
        self.sol = pyclaw.Solution(st, dom)
        self.s = s
        if kind[0] == 'c':
            s.order = b.get('order', 2)
            s.limiters = b.get('lim', 1)
            s.source_split = b.get('ss', 1)
            if nd > 1:
                s.dimensional_split = kind.endswith('s')
                if not s.dimensional_split:
                    s.transverse_waves = b.get('tw', 1 if nd == 2 else 11)
        else:
            ti = b.get('ti', 'SSP33')
            s.time_integrator = ti
            if ti == 'RK':
                s.a = np.array([[0, 0, 0], [0.5, 0, 0], [0.25, 0.5, 0]])
                s.b = np.array([0.25, 0.25, 0.5]); s.c = np.array([0, 0.5, 0.75])
            s.lim_type = b.get('lt', 2) if not self.py else 2
        for i in range(nd):
            s.bc_lower[i] = BC.periodic if i else BC.custom
            s.bc_upper[i] = BC.periodic if i else BC.extrap
            if naux:
                s.aux_bc_lower[i] = BC.periodic if i else BC.extrap
                s.aux_bc_upper[i] = BC.periodic if i else BC.extrap
        s.cfl_max = b['cm'] / TICK * CU
        s.cfl_desired = b['cd'] / TICK * CU
        s.dt_variable = bool(b['variable'])
        s.dt_max = b['dtmax'] / TICK * SC
        s.dt = b['dt0'] / TICK * SC
        s.dt_initial = b['dt0'] / TICK * SC
        self.bc_observer = None

        def bc(state, dim, t, qbc, auxbc, num_ghost):
            if self.bc_observer is not None:
                g = num_ghost
                self.bc_observer(state, t, qbc[(slice(None),) + (slice(g, -g),) * nd])
            for i in range(num_ghost):
                qbc[:, i, ...] = qbc[:, num_ghost, ...]
        s.user_bc_lower = bc

    def set_speed(self, state, v, k=0):
        """make the largest wave speed (over cell width and capacity) equal v; k varies where"""
        v = v / SC * CU
        sg = 1.0 if (self.pl + k) % 2 == 0 else -1.0
        if self.two:
            low = v * [0.0, 0.5, 0.25][(self.pl + k) % 3]
            sp = [sg * v, -low] if ((self.pl + k) // 2) % 2 else [low, sg * v]
            state.problem_data['speeds'] = sp
        elif self.py:
            state.problem_data['u'] = sg * v
        else:
            d = (self.pl + k) % self.nd
            sg = 1.0 if ((self.pl + k) // 3) % 2 == 0 else -1.0
            for i in range(self.nd):
                f = 1.0 if i == d else [0.0, 0.5][(self.pl + k + i) % 2]
                state.aux[i, ...] = sg * v * self.dx[i] * f
                if not self.b.get('capa', 0) and (self.pl // 5) % 2 and self.b['kind'][0] == 'c' and i == d:
                    # only one interior interface is fast
                    a = state.aux[i]
                    a[...] *= 0.5
                    ix = (self.pl * 3 + k) % a.size
                    a.flat[ix] = sg * v * self.dx[i]
                    if self.nd == 1 and sg < 0:
                        # color equation: speed is min(left,0)+max(right,0)
                        a[...] = np.minimum(a, 0)


def source(state, dt, j):
    q = state.q
    state.q = q + dt / SC * (0.5 * np.roll(q, 1, axis=-1) + (j % 3))


class Runaway(BaseException):
    pass


def record(scn):
    b = scn['cfg']
    ops, spd = scn['ops'], scn['speeds']
    sim = Sim(b)
    s, sol = sim.s, sim.sol
    ids = {}

    def qid(a):
        return ids.setdefault((a.shape, np.asfortranarray(a).tobytes()), len(ids) + 1)
    ev = []
    cur = dict(att=-1, done=0, stage=0)
    hasg = b.get('gauge', 0)
    scratch = None
    if hasg:
        scratch = tempfile.mkdtemp(prefix='gau', dir='.')
        sol.state.grid.add_gauges([[1.5 * sim.dx[0]] + [0.5 * d for d in sim.dx[1:]]])
        sol.state.keep_gauges = True
        sol.state.grid.setup_gauge_files(scratch)

    def gcount():
        if not hasg:
            return 0
        d = sol.state.gauge_data
        return len(np.atleast_2d(d[0])) if len(d) else 0

    def obs():
        return dict(t=ticks(sol.t), q=qid(sol.state.q), dt=ticks(s.dt), n=int(s.status['numsteps']),
                    cm=cmax(s.status['cflmax']), g=gcount(), maxs=int(s.max_steps))

    def speed(i, j=0):
        """scripted wave speed of attempt i, stage j"""
        row = spd[i % len(spd)] if spd else [1]
        return row[j % len(row)]

    sharp = b['kind'][0] == 's'
    pend = {}
    last = {}

    def reference(o):
        """does a fresh solver taking one fixed step get the data the solution now has?"""
        if not pend or o['dt'] <= 0:
            return 0
        r = Sim(dict(b, variable=0))
        r.s.cfl_max = 1e9; r.s.cfl_desired = 1e8
        r.s.dt = s.dt
        r.sol.state.q = pend['q'].copy('F')
        r.sol.t = pend['t']
        att = cur['att']
        stg = [0]

        def bs(solver, state):
            if state is r.sol.state:
                r.set_speed(state, speed(pend['row'], 0), pend['row'])
            else:
                stg[0] += 1
                r.set_speed(state, speed(att, stg[0]), att + stg[0])
        r.s.before_step = bs
        if b.get('each', 0):
            r.s.call_before_step_each_stage = True
        cnt = [0]

        def src(solver, state, dt):
            cnt[0] += 1
            source(state, dt, cnt[0])
        if b.get('src', 0):
            r.s.step_source = src
        r.s.evolve_to_time(r.sol)
        return int(np.allclose(r.sol.state.q, sol.state.q, rtol=1e-9, atol=1e-9))

    def close(o):
        """adds to observation o what is known about the attempt that has just ended"""
        o['ref'] = reference(o)
        return o

    def hook(solver, state):
        if len(ev) > 12000:
            raise Runaway()
        if state is not sol.state:
            # a Runge-Kutta stage
            cur['stage'] += 1
            v = speed(cur['att'], cur['stage'])
            q0 = qid(state.q)
            sim.set_speed(state, v, cur['att'] + cur['stage'])
            ev.append(dict(e='stage', t=ticks(state.t, 12), q=q0, qo=q0, s=v))
            return
        o = close(obs())
        acc = (not last) or o['t'] != last['tt'] or o['n'] != last['n']
        cur['att'] += 1
        cur['stage'] = 0
        cur['srcs'] = 0
        row = cur['att'] if (not sharp or acc) else last['row']
        v = speed(row, 0)
        sim.set_speed(state, v, row)
        if b.get('hookmod', 0):
            state.q.flat[(3 * row) % state.q.size] += 1.0
        last.update(tt=o['t'], n=o['n'], row=row)
        pend.clear()
        pend.update(q=state.q.copy('F'), t=sol.t, tt=o['t'], n=o['n'], row=row)
        ev.append(dict(o, e='hook', qo=qid(state.q), s=v, own=int(solver is s)))

    def src(solver, state, dt):
        cur['srcs'] = cur.get('srcs', 0) + 1
        q0 = qid(state.q)
        source(state, dt, cur['srcs'])
        ev.append(dict(e='src', len2=ticks(dt, 2), dt=ticks(solver.dt), t=ticks(sol.t), q=q0, qo=qid(state.q)))

    def bc(state, t, q):
        if cur['live']:
            ev.append(dict(e='bc', t=ticks(t, 12), q=qid(q)))
    cur['live'] = 0
    sim.bc_observer = bc
    s.before_step = hook
    if b.get('each', 0):
        s.call_before_step_each_stage = True
    if b.get('src', 0):
        s.step_source = src
    s.max_steps = b['maxs']
    # set-up happens on first use; do it here so that its boundary filling is not recorded
    s.setup(sol)
    cur['live'] = 1
    for op in ops:
        if op['op'] == 'max':
            s.max_steps = op['n']
            ev.append(dict(e='max', n=op['n']))
            continue
        ev.append(dict(obs(), e='call', op=op['op'], tend=op.get('tend', 0)))
        raised = 0
        try:
            if op['op'] == 'to':
                st = s.evolve_to_time(sol, op['tend'] / TICK * SC)
            else:
                st = s.evolve_to_time(sol)
        except Exception as ex:
            raised = 1
        o = close(obs())
        if not raised:
            o['n'] = int(st['numsteps']); o['cm'] = cmax(st['cflmax'])
        ev.append(dict(o, e='ret', raised=raised))
        pend.clear()
        if raised and not b['variable']:
            break
    if hasg:
        for f in sol.state.grid.gauge_files:
            f.close()
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(cfg=b, ev=ev)
