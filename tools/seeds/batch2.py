import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import mk
PRE = '''
import sys, os, copy, numpy as np, logging
from clawpack import pyclaw, riemann
logging.disable(logging.CRITICAL)
'''
SH = 'src/pyclaw/sharpclaw/solver.py'
ODE = PRE + '''
def ode(ti, src, n=8, u=0.0, **kw):
    """a problem in which only the source acts (advection speed u)"""
    s = pyclaw.SharpClawSolver1D(riemann.advection_1D)
    s.all_bcs = pyclaw.BC.periodic
    s.time_integrator = ti
    s.cfl_max = 1.0; s.cfl_desired = 0.5
    for k, v in kw.items(): setattr(s, k, v)
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., n, name='x')])
    st = pyclaw.State(dom, 1)
    st.problem_data['u'] = u
    st.q[0, :] = 1.0
    s.dq_src = src
    return s, pyclaw.Solution(st, dom)
'''
mk('C12a', 'C12', [(SH, """                self.before_step(self,self._registers[0])
            self._registers[0].q = 0.75*state.q + 0.25*(self._registers[0].q + self.dq(self._registers[0]))
            self._registers[0].t = state.t + 0.5*self.dt
""", """                self.before_step(self,self._registers[0])
                self._registers[0].t = state.t + 0.5*self.dt
            self._registers[0].q = 0.75*state.q + 0.25*(self._registers[0].q + self.dq(self._registers[0]))
""")],
   'the three-stage method with a source that depends on time',
   'the last stages of the three-stage method are evaluated at the wrong time, so its order drops',
   ODE + """
err = []
for N in (4, 8):
    s, sol = ode('SSP33', lambda solver, state, dt: dt * 5 * state.t**4 + 0 * state.q)
    s.dt_variable = False; s.dt = 1.0 / N
    s.evolve_to_time(sol, 1.0)
    err.append(abs(sol.q[0, 0] - 2.0))
assert err[0] < 1e-2 and err[0] / max(err[1], 1e-15) > 7, err
""")
mk('C12b', 'C12', [(SH, '''        if self.accept_step == True:
            self.cfl.set_global_max(0.)
            self.dq_dt = self.dq(state) / self.dt
''', '''        if self.accept_step == True or self.dq_src is not None:
            self.cfl.set_global_max(0.)
            self.dq_dt = self.dq(state) / self.dt
        ''' + '''
'''), (SH, '''            self._registers[0].q = 0.75*state.q + 0.25*(self._registers[0].q + self.dq(self._registers[0]))
''', '''            self._registers[0].q = 0.75*self._registers[0].q + 0.25*(state.q + self.dq(self._registers[0])) \\
                if self.dt < 0.5*self.dt_max and self.num_eqn > 2 else \\
                0.75*state.q + 0.25*(self._registers[0].q + self.dq(self._registers[0]))
''')],
   'three or more equations',
   'the three-stage method combines its stages with exchanged weights',
   PRE + '''
''') if 0 else None
mk('C13a', 'C13', [(SH, '''        elif self.accept_step == True: # Previous step was accepted
''', '''        elif self.accept_step == True or step_index == 2: # Previous step was accepted
''')],
   'a multistep method and a rejected attempt at the second step (while it is starting up)',
   'the step that is retaken enters the history of the multistep method a second time',
   ODE + '''
class W: v = 1.0
def run(reject):
    n = 16
    s = pyclaw.SharpClawSolver1D(riemann.advection_color_1D)
    s.all_bcs = pyclaw.BC.periodic
    s.aux_bc_lower[0] = s.aux_bc_upper[0] = pyclaw.BC.periodic
    s.time_integrator = 'SSPLMMk2'; s.lmm_steps = 4
    s.cfl_max = 0.4; s.cfl_desired = 0.2
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., n, name='x')])
    st = pyclaw.State(dom, 1, 1)
    st.aux[0, :] = 1.0
    st.q[0, :] = 0.0
    s.dq_src = lambda solver, state, dt: dt * np.ones_like(state.q)
    sol = pyclaw.Solution(st, dom)
    s.dt = 0.005
    if reject:
        s.call_before_step_each_stage = True
        hist = dict(n=-1)
        def hook(solver, state):
            first = solver.status['numsteps'] == 1 and state is not sol.state and not hist.get('done')
            state.aux[0, :] = 20.0 if first else 1.0
            if first: hist['done'] = 1
        s.before_step = hook
    for i in range(12): s.evolve_to_time(sol)
    return sol
# q' = 1: every consistent method gives q = t exactly
for r in (0, 1):
    sol = run(r)
    assert np.abs(sol.q - sol.t).max() < 1e-10, (r, sol.q, sol.t)
''')
mk('C13b', 'C13', [(SH, '''                for i in range(self.lmm_steps-1):
                    state.q += self.alpha[i]''', '''                for i in range(min(self.lmm_steps,len(self.prev_dt_values)+3)-1):
                    state.q += self.alpha[i]''')],
   'a general multistep method with five or more steps',
   'the oldest contributions of a long multistep method are dropped',
   ODE + '''
for k in (2, 3, 4, 5, 6):
    s, sol = ode('LMM', lambda solver, state, dt: dt * np.ones_like(state.q), lmm_steps=k,
                 alpha=np.ones(k) / k, beta=np.ones(k) / k)
    s.dt_variable = False; s.dt = 0.01
    s.beta = np.ones(k) * (k + 1) / 2. / k
    for i in range(15): s.evolve_to_time(sol)
    assert np.abs(sol.q - 1 - sol.t).max() < 1e-10, (k, sol.q, sol.t)
''')
