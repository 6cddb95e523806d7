"""Recorder for the method-of-lines integrators (MolTrace.tla): the rates the integrator sees are the real spatial operator plus
scripted source values; every evaluation and every attempted step is recorded."""
import numpy as np
from rec_step import Sim, ticks, OFF
S = 840


def lst(a):
    v = np.asarray(a, float).ravel(order='F') * S
    return [int(np.floor(x + 0.5)) if np.isfinite(x) and abs(x) < 2e8 else OFF for x in v]


def make(b, ti=None, var=None):
    ti = ti or b['ti']
    c = dict(kind=b['kind'], variable=b['variable'] if var is None else var, cm=24, cd=12, dtmax=10 ** 6, dt0=b['dt0'],
             dseed=b['dseed'], pl=b['pl'], capa=b['capa'], ti='SSP33', lt=b['lt'])
    sim = Sim(c)
    s = sim.s
    s.time_integrator = ti
    if ti == 'RK':
        s.a = np.array(b['a'], float) / 60; s.b = np.array(b['b'], float) / 60; s.c = np.array(b['c'], float) / 60
    if 'LMM' in ti:
        s.lmm_steps = b['s']
    if ti == 'LMM':
        s.alpha = np.array(b['al'], float) / 60; s.beta = np.array(b['be'], float) / 60
    return sim


def rate(b, q, v, k):
    """spatial operator on data q, by one forward Euler step of a fresh solver"""
    r = make(b, 'Euler', 0)
    r.s.cfl_max = 1e9; r.s.cfl_desired = 1e8
    r.s.dt = 1.0 / 64
    r.sol.state.q = q.copy('F')
    r.set_speed(r.sol.state, v, k)
    r.s.evolve_to_time(r.sol)
    return (r.sol.state.q - q) * 64.0


class Runaway(BaseException):
    pass


def record(scn):
    b = scn['cfg']
    sim = make(b)
    s, sol = sim.s, sim.sol
    rng = np.random.RandomState(b['dseed'] + 5)
    ev = []
    cur = dict(v=1.0, k=0, op=None, retry=False, n=-1)
    multi = 'LMM' in b['ti']

    def obs():
        return dict(n=int(s.status['numsteps']), t=ticks(sol.t, 60), q=lst(sol.state.q))

    def hook(solver, state):
        if len(ev) > 4000:
            raise Runaway()
        if state is not sol.state:
            # later stage
            op = cur['op']
            if op is not None and op['r'] and not cur['retry']:
                ratio = 1.0
                if b['ti'].startswith('SSPLMM'):
                    ratio = 1.0 / s.sspcoeff
                cur['v'] = 12.0 * ratio / op['r']
            else:
                cur['v'] = b['v']
            sim.set_speed(state, cur['v'], cur['k'])
            return
        o = obs()
        cur['retry'] = o['n'] == cur['n']
        if not cur['retry']:
            cur['k'] += 1
        cur['n'] = o['n']
        cur['v'] = b['v']
        sim.set_speed(state, cur['v'], cur['k'])
        ev.append(dict(o, e='at'))

    def src(solver, state, dt):
        k = rng.randint(-5, 6, size=state.q.shape).astype(float)
        if b['lin']:
            k = k + 0.25 * state.q
        L = rate(b, state.q, cur['v'], cur['k'])
        ev.append(dict(e='ev', t=ticks(state.t, 60), q=lst(state.q), k=lst(L + k)))
        return dt * k
    s.before_step = hook
    s.call_before_step_each_stage = bool(b['each'])
    s.dq_src = src
    if b['variable'] == 0:
        s.dt = b['dt0'] / 16.0
    raised = 0
    try:
        for op in scn['ops']:
            cur['op'] = op
            if b['variable']:
                s.dt_max = op['h'] / 16.0
                if s.status['numsteps'] == 0:
                    s.dt = op['h'] / 16.0
            if op['to']:
                s.evolve_to_time(sol, sol.t + (op['r'] or op['h']) / 16.0)
            else:
                s.evolve_to_time(sol)
    except Exception as ex:
        raised = 1
        b['exc'] = repr(ex)[:200]
    ev.append(dict(obs(), e='ret', raised=raised, want=0))
    c = dict(b)
    return dict(cfg=c, ev=ev)
