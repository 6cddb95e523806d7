import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import mk
PRE = '''
import sys, os, copy, numpy as np, logging
from clawpack import pyclaw, riemann
logging.disable(logging.CRITICAL)
'''
C = 'src/pyclaw/classic/solver.py'
mk('C06b', 'C06', [('src/pyclaw/state.py', 'result.problem_data = copy.deepcopy(self.problem_data)', 'result.problem_data = copy.copy(self.problem_data)')],
   'a problem parameter that is itself mutable (a list or array) and is changed in place after the copy was made',
   'the copy shares the parameter with the original',
   PRE + '''
dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 4, name='x')])
st = pyclaw.State(dom, 1); st.problem_data['table'] = np.zeros(3); st.problem_data['u'] = 1.
sol = pyclaw.Solution(st, dom)
c = copy.deepcopy(sol)
st.problem_data['table'][1] = 5.
assert c.state.problem_data['table'][1] == 0.
''')
mk('C17a', 'C17', [('src/pyclaw/fileio/claw_vtk.py', '                q_i = q[i, ...]\n', '                q_i = q[i, ...]\n                q_i[np.abs(q_i) < 1e-30] = 0.  # below the range of VTK_FLOAT\n')],
   'vtk output of a solution that holds very small non-zero values',
   'writing the frame changes the solution and so the rest of the run',
   PRE + '''
dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 6, name='x'), pyclaw.Dimension(0., 1., 5, name='y')])
st = pyclaw.State(dom, 1); st.problem_data['u'] = 1.
st.q[0] = 10.**(-5*np.arange(30.).reshape(6, 5))
q0 = st.q.copy()
sol = pyclaw.Solution(st, dom)
sol.write(0, path=sys.argv[1], file_format='vtk')
assert np.array_equal(sol.q, q0), 'writing changed the data'
''')
mk('C18a', 'C18', [('src/pyclaw/geometry.py', '''        self._upper = float(upper)
        self._centers = None  # Reset cached arrays
        self._nodes = None
''', '''        self._upper = float(upper)
        self._centers = None  # Reset cached arrays
''')],
   'the nodes of a dimension are read, its upper end is moved, and the nodes are read again',
   'the nodes reported are those of the old geometry',
   PRE + '''
d = pyclaw.Dimension(0., 1., 4, name='x')
d.nodes
d.upper = 2.
assert d.nodes[-1] == 2. and abs(d.nodes[1] - d.delta) < 1e-14, d.nodes
''')
mk('C20a', 'C20', [(C, '''        solution.state.set_cparam(self.rp)
''', '''        if getattr(self.rp, '_cparam_of', None) != (self.num_eqn, self.num_waves):
            solution.state.set_cparam(self.rp)
            self.rp._cparam_of = (self.num_eqn, self.num_waves)
''')],
   'two simulations in one process with the same Riemann solver and different problem parameters',
   'the second one runs with the parameters of the first',
   PRE + '''
def run(u):
    s = pyclaw.ClawSolver1D(riemann.advection_1D); s.all_bcs = pyclaw.BC.periodic
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 20, name='x')])
    st = pyclaw.State(dom, 1); st.problem_data['u'] = u; st.q[0] = np.sin(2*np.pi*st.grid.x.centers)
    s.dt_initial = 0.01
    s.evolve_to_time(pyclaw.Solution(st, dom), 0.25)
    return st.q.copy()
a = run(1.); b = run(-1.)
assert np.abs(a + b).max() < 1e-12, 'the parameter of the first run was used'
''')
