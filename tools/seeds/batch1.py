import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import mk
PRE = '''
import sys, os, copy, numpy as np, logging
from clawpack import pyclaw, riemann
logging.disable(logging.CRITICAL)
def adv(n=20, u=1.0, cls=pyclaw.ClawSolver1D, naux=0):
    s = cls(riemann.advection_1D)
    s.all_bcs = pyclaw.BC.periodic
    s.aux_bc_lower[0] = s.aux_bc_upper[0] = pyclaw.BC.periodic
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., n, name='x')])
    st = pyclaw.State(dom, 1, naux)
    st.problem_data['u'] = u
    st.q[0, :] = np.sin(2*np.pi*st.grid.x.centers)
    return s, pyclaw.Solution(st, dom)
'''
S = 'src/pyclaw/solver.py'
mk('C03a', 'C03', [(S, '''            else:
                self.dt = self.dt_max
''', '''            else:
                self.dt = min(self.dt_max, 10*self.dt)
''')],
   'data in which nothing moves at first (zero wave speeds) and a maximum step more than ten times the current one',
   'the step after one with zero Courant number is not the configured maximum step',
   PRE + '''
s, sol = adv(u=0.0); s.dt = 0.001; s.dt_max = 0.1
ts = []
s.before_step = lambda solver, state: ts.append(state.t)
s.evolve_to_time(sol, 0.501)
ts.append(sol.t)
d = np.diff(ts)
assert np.allclose(d, [0.001] + [0.1]*5), d
''')
mk('C01a', 'C01', [(S, '1e-5 * (tend - tstart):', '1e-2 * (tend - tstart):')],
   'a fixed step that almost, but not quite, divides the requested interval',
   'evolve_to_time returns normally with the solution short of the requested time',
   PRE + '''
s, sol = adv(); s.dt_variable = False; s.dt = 0.0199
try:
    s.evolve_to_time(sol, 0.2)
except Exception:
    sys.exit(0)
assert abs(sol.t - 0.2) < 1e-5 * 0.2, sol.t
''')
mk('C02a', 'C02', [(S, '''            if self.before_step is not None:
                self.before_step(self, solution.states[0])
''', ''), (S, '''            # Keep a backup in case we need to retake a time step
''', '''            if self.before_step is not None:
                self.before_step(self, solution.states[0])

            # Keep a backup in case we need to retake a time step
''')],
   'a before_step hook that changes the data and an attempt that is rejected',
   'after a rejected attempt the data are not what they were before the attempt: the effect of the hook is kept and applied again',
   PRE + '''
s, sol = adv(); s.dt = 0.2; s.cfl_max = 1.0; s.cfl_desired = 0.5
def hook(solver, state): state.q[...] += 1.0
s.before_step = hook
m0 = sol.q.mean()
s.evolve_to_time(sol, 0.2)
assert abs(sol.q.mean() - m0 - s.status['numsteps']) < 1e-10, sol.q.mean() - m0
''')
mk('C04a', 'C04', [('src/pyclaw/classic/solver.py', '''        self.get_dt(solution.t,tstart,tend,take_one_step)
        self.cfl.set_global_max(0.)

        if self.source_split == 2 and self.step_source is not None:
            self.step_source(self,solution.states[0],self.dt/2.0)

        self.step_hyperbolic(solution)
''', '''        dt = self.dt
        self.get_dt(solution.t,tstart,tend,take_one_step)
        self.cfl.set_global_max(0.)

        if self.source_split == 2 and self.step_source is not None:
            self.step_source(self,solution.states[0],min(dt,self.dt)/2.0)

        self.step_hyperbolic(solution)
''')],
   'Strang splitting and a step that is longer than the one before it',
   'the first half of the source step uses half of the previous step length',
   PRE + '''
s, sol = adv(); s.dt = 0.001; s.source_split = 2
tot = [0.0]
def src(solver, state, dt): tot[0] += dt
s.step_source = src
s.evolve_to_time(sol, 0.2)
assert abs(tot[0] - 0.2) < 1e-10, tot
''')
mk('C05a', 'C05', [('src/pyclaw/controller.py', 'output_times = np.linspace(self.solution.t,self.tfinal,', 'output_times = np.linspace(min(self.solution.t,0.),self.tfinal,')],
   'a run that starts from a positive time (second run of a controller, or restart)',
   'the frames of a run that does not start at zero are not equally spaced from the current time',
   PRE + '''
s, sol = adv()
c = pyclaw.Controller(); c.solver = s; c.solution = sol; c.keep_copy = True; c.output_format = None; c.verbosity = 0
c.tfinal = 0.2; c.num_output_times = 2; c.run()
c.tfinal = 0.6; c.num_output_times = 4; c.run()
t = [f.t for f in c.frames]
assert np.allclose(t, [0, .1, .2, .2, .3, .4, .5, .6]), t
''')
mk('C06a', 'C06', [('src/pyclaw/geometry.py', '''        result.grid.mapc2p = self.grid.mapc2p
''', '''        if self.num_dim > 1:
            result.grid.mapc2p = self.grid.mapc2p
''')],
   'a one-dimensional mapped grid and a copy (or a frame kept in memory)',
   'copies of one-dimensional solutions lose their mapping',
   PRE + '''
s, sol = adv()
sol.state.grid.mapc2p = lambda x: [x[0]**2]
c = copy.deepcopy(sol)
assert np.allclose(c.state.grid.p_centers[0], sol.state.grid.p_centers[0])
''')
mk('C07a', 'C07', [('src/pyclaw/solver.py', '''                    aux = solution.state.aux[:,ix,iy]
''', '''                    aux = solution.state.aux[:,iy,ix] if iy < solution.state.aux.shape[1] and ix < solution.state.aux.shape[2] else solution.state.aux[:,ix,iy]
''')],
   'a two-dimensional gauge off the diagonal whose quantity uses auxiliary values',
   'the gauge quantity is computed from the auxiliary values of another cell',
   PRE + '''
s = pyclaw.ClawSolver2D(riemann.vc_advection_2D)
s.all_bcs = pyclaw.BC.periodic
s.aux_bc_lower[:] = [pyclaw.BC.periodic]*2; s.aux_bc_upper[:] = [pyclaw.BC.periodic]*2
dom = pyclaw.Domain([0., 0.], [1., 1.], [8, 8])
st = pyclaw.State(dom, 1, 3)
st.aux[0:2] = 0.0
st.q[0] = 1.0
st.aux[2] = np.arange(64.).reshape(8, 8)
s.compute_gauge_values = lambda q, aux: [aux[2]]
st.grid.add_gauges([(0.1, 0.6)])
st.keep_gauges = True
s.dt_initial = 0.1
c = pyclaw.Controller(); c.solver = s; c.solution = pyclaw.Solution(st, dom); c.output_format = None
c.tfinal = 0.1; c.num_output_times = 1; c.outdir = sys.argv[1] + '/o'; c.verbosity = 0
c.run()
assert st.gauge_data[0][0][1] == st.aux[2, 0, 4], st.gauge_data[0]
''')
mk('C08a', 'C08', [(S, '''            else:
                for i in range(self.num_ghost):
                    array[:,-i-1,...] = array[:,-2*self.num_ghost+i,...]
''', '''            else:
                for i in range(self.num_ghost):
                    array[:,-i-1,...] = array[:,-self.num_ghost-1,...]
''')],
   'auxiliary data varying near an upper wall boundary',
   'the auxiliary ghost cells beyond an upper wall hold the nearest interior value instead of the mirror image',
   PRE + '''
s, sol = adv(naux=1)
s.aux_bc_upper[0] = s.aux_bc_lower[0] = pyclaw.BC.wall
sol.state.aux[0, :] = np.arange(20.)
s.dt = 1e-6
s.evolve_to_time(sol)
assert list(s.auxbc[0, -2:]) == [19., 18.], s.auxbc[0, -4:]
assert list(s.auxbc[0, :2]) == [1., 0.], s.auxbc[0, :4]
''')
