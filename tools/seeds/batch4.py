import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import mk
PRE = '''
import sys, os, copy, numpy as np, logging
from clawpack import pyclaw, riemann
logging.disable(logging.CRITICAL)
'''
C = 'src/pyclaw/classic/solver.py'
P = 'src/pyclaw/sharpclaw/solver.py'
mk('C09c', 'C09', [(C, 'dtdxave = 0.5 * (dtdx[LL-1:UL-1] + dtdx[LL:UL])', 'dtdxave = np.maximum(dtdx[LL-1:UL-1], dtdx[LL:UL])')],
   'the Python kernel at second order and a capacity that varies from cell to cell',
   'the second-order correction of the Python kernel uses the wrong step to width ratio and differs from the Fortran kernel',
   PRE + '''
res = []
for lang, rp in (('Fortran', riemann.burgers_1D), ('Python', riemann.burgers_1D_py.burgers_1D)):
    s = pyclaw.ClawSolver1D(rp); s.kernel_language = lang; s.fwave = False
    s.all_bcs = pyclaw.BC.periodic; s.aux_bc_lower[0] = s.aux_bc_upper[0] = pyclaw.BC.periodic
    s.num_eqn = s.num_waves = 1
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 20, name='x')])
    st = pyclaw.State(dom, 1, 1); st.problem_data['efix'] = True
    st.index_capa = 0
    st.aux[0, :] = 1.; st.aux[0, 5:9] = 4.
    st.q[0, :] = 1. + 0.1*np.sin(2*np.pi*st.grid.x.centers)
    s.dt_variable = False; s.dt = 0.02; s.cfl_max = 1e3
    sol = pyclaw.Solution(st, dom)
    s.evolve_to_time(sol)
    res.append(sol.q.copy())
assert np.abs(res[0] - res[1]).max() < 1e-12, np.abs(res[0] - res[1]).max()
''')
mk('C10b', 'C10', [(C, 'self._method[2] = self.transverse_waves', 'self._method[2] = self.transverse_waves if self.order > 1 else 0')],
   'a two- or three-dimensional unsplit solver of first order with transverse waves switched on',
   'the transverse (corner) transport is dropped, so the step is not the one of the chosen algorithm',
   PRE + '''
s = pyclaw.ClawSolver2D(riemann.advection_2D)
s.all_bcs = pyclaw.BC.periodic; s.order = 1; s.dimensional_split = False
s.transverse_waves = s.trans_inc
dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 8, name='x'), pyclaw.Dimension(0., 1., 8, name='y')])
st = pyclaw.State(dom, 1); st.problem_data['u'] = 1.; st.problem_data['v'] = 1.
q = np.random.RandomState(1).rand(8, 8)
st.q[0] = q
s.dt_variable = False; s.dt = 0.5/8; s.cfl_max = 1.0
s.evolve_to_time(pyclaw.Solution(st, dom))
a = b = 0.5
X = np.roll(q, 1, 0); Y = np.roll(q, 1, 1); XY = np.roll(X, 1, 1)
ex = (1-a)*(1-b)*q + a*(1-b)*X + (1-a)*b*Y + a*b*XY      # corner transport upwind
assert np.abs(st.q[0] - ex).max() < 1e-12, np.abs(st.q[0] - ex).max()
''')
mk('C11a', 'C11', [(P, 'clawparams.index_capa         = state.index_capa+1', 'clawparams.index_capa         = min(state.index_capa+1, 1)')],
   'a SharpClaw Fortran solver whose capacity is not the first auxiliary component',
   'another auxiliary component is used as capacity, and the capacity-weighted total drifts',
   PRE + '''
s = pyclaw.SharpClawSolver2D(riemann.advection_2D)
s.all_bcs = pyclaw.BC.periodic
for d in range(2): s.aux_bc_lower[d] = s.aux_bc_upper[d] = pyclaw.BC.periodic
dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 10, name='x'), pyclaw.Dimension(0., 1., 12, name='y')])
st = pyclaw.State(dom, 1, 2); st.problem_data['u'] = 1.; st.problem_data['v'] = 0.5
X, Y = st.grid.p_centers
st.aux[0] = 3. + np.cos(5*X); st.aux[1] = 1.5 + 0.5*np.sin(2*np.pi*X)*np.cos(2*np.pi*Y)
st.index_capa = 1
st.q[0] = np.random.RandomState(1).rand(10, 12)
tot = lambda: (st.q[0]*st.aux[1]).sum()
t0 = tot()
s.dt_initial = s.dt = 0.005
s.evolve_to_time(pyclaw.Solution(st, dom), 0.1)
print(t0, tot())
assert abs(tot() - t0) < 1e-10*abs(t0)
''')
mk('C14c', 'C14', [(P, 'clawparams.dx       =grid.delta', 'clawparams.dx       =sorted(grid.delta)')],
   'a multidimensional SharpClaw run whose cells are wider in an earlier direction than in a later one',
   'the cell widths are attributed to the wrong directions, so the right-hand side no longer agrees with the one-dimensional one',
   PRE + '''
def rate(nd, d):
    s = (pyclaw.SharpClawSolver1D, pyclaw.SharpClawSolver2D)[nd - 1]((riemann.advection_1D, riemann.advection_2D)[nd - 1])
    s.all_bcs = pyclaw.BC.periodic
    s.time_integrator = 'Euler'; s.cfl_max = 1e3; s.cfl_desired = 1e2; s.dt_variable = False; s.dt = 1e-3
    n = [10, 12][:nd]; w = [1.0, 0.3][:nd]
    if nd == 1: n, w = [[10, 12][d]], [[1.0, 0.3][d]]
    dom = pyclaw.Domain([pyclaw.Dimension(0., w[i], n[i], name='xy'[i]) for i in range(nd)])
    st = pyclaw.State(dom, 1); st.problem_data['u'] = 1.; st.problem_data['v'] = 1.
    if nd == 1: st.q[0] = np.sin(2*np.pi*np.arange(n[0])/n[0])
    else:
        v = np.sin(2*np.pi*np.arange(n[d])/n[d]); st.q[0] = v[:, None] if d == 0 else v[None, :]
    q0 = st.q.copy()
    s.evolve_to_time(pyclaw.Solution(st, dom))
    r = (st.q - q0)[0]/1e-3
    return r if nd == 1 else (r[:, 3] if d == 0 else r[3, :])
for d in (0, 1):
    a, b = rate(1, d), rate(2, d)
    assert np.abs(a - b).max() < 1e-8*np.abs(a).max(), (d, np.abs(a - b).max())
''')
A = 'src/pyclaw/fileio/ascii.py'
mk('C15a', 'C15', [(A, '''                for m in range(q.shape[0]):
                    f.write("%18.8e" % q[m,k,j])
''', '''                for m in range(q.shape[0]):
                    f.write("%16.8e" % q[m,k,j])
''')],
   'two-dimensional ascii output of negative values below 1e-99 in size in a component after the first',
   'neighbouring columns run together and the frame cannot be read back',
   PRE + '''
dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 4, name='x'), pyclaw.Dimension(0., 1., 3, name='y')])
st = pyclaw.State(dom, 3)
st.q[...] = np.random.RandomState(0).rand(3, 4, 3); st.q[1] *= -1e-120; st.problem_data['u'] = 1.
sol = pyclaw.Solution(st, dom)
sol.write(1, path=sys.argv[1], file_format='ascii')
new = pyclaw.Solution(1, path=sys.argv[1], file_format='ascii')
assert np.allclose(new.q, st.q, rtol=1e-7, atol=0)
''')
mk('C15b', 'C15', [('src/pyclaw/fileio/hdf5.py', 'if write_aux and state.num_aux > 0:', 'if write_aux and state.num_aux > 0 and patch.level == 1:')],
   'hdf5 output of auxiliary data of a patch on a refined level',
   'the auxiliary values of refined patches are missing from the frame',
   PRE + '''
states = []
for k in range(2):
    p = pyclaw.Patch([pyclaw.Dimension(0.5*k, 0.5*k + 0.5, 4*(k+1), name='x')]); p.level = k + 1; p.patch_index = k + 1
    s = pyclaw.State(p, 1, 2); s.q[...] = k + 1.; s.aux[...] = 10.*k + np.arange(2)[:, None]; states.append(s)
sol = pyclaw.Solution(states, pyclaw.Domain([s.patch for s in states]))
sol.write(0, path=sys.argv[1], file_format='hdf5', write_aux=True)
new = pyclaw.Solution(0, path=sys.argv[1], file_format='hdf5', read_aux=True)
for a, b in zip(states, new.states):
    assert np.array_equal(a.aux, b.aux), (a.aux, b.aux)
''')
mk('C16a', 'C16', [(A, "ABS_TOL = 1e-8", "ABS_TOL = 1e-1")],
   'an auxiliary file whose patch is placed elsewhere (by less than a tenth) than the patch of the data file',
   'auxiliary values that belong to other cells are accepted',
   PRE + '''
w = sys.argv[1]
for k, lo in ((0, 0.0), (1, 0.05)):
    dom = pyclaw.Domain([pyclaw.Dimension(lo, lo + 1., 20, name='x')])
    st = pyclaw.State(dom, 1, 1); st.q[...] = 1.; st.aux[0] = st.grid.x.centers; st.problem_data['u'] = 1.
    pyclaw.Solution(st, dom).write(k, path=w, file_format='ascii', write_aux=True)
os.replace(w + '/fort.a0001', w + '/fort.a0000')      # the files no longer belong together
try:
    new = pyclaw.Solution(0, path=w, file_format='ascii', read_aux=True)
except Exception as ex:
    print('refused', ex); sys.exit(0)
assert np.allclose(new.aux[0], new.state.grid.x.centers), 'auxiliary values of other cells accepted'
''')
mk('C19a', 'C19', [(C, 'if len(self._mthlim)!=self.num_waves:', 'if len(self._mthlim)<self.num_waves:')],
   'more limiters given than there are waves',
   'a wrong number of limiters is accepted and the run computes',
   PRE + '''
s = pyclaw.ClawSolver1D(riemann.advection_1D); s.all_bcs = pyclaw.BC.periodic
s.limiters = [4, 1, 2]
dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 20, name='x')])
st = pyclaw.State(dom, 1); st.problem_data['u'] = 1.; st.q[0] = np.arange(20.)
q0 = st.q.copy()
try:
    s.evolve_to_time(pyclaw.Solution(st, dom), 0.1)
except Exception as ex:
    print('refused', ex); assert np.array_equal(q0, st.q); sys.exit(0)
sys.exit('three limiters for one wave were accepted')
''')
mk('C21a', 'C21', [('src/pyclaw/gauges.py', 'if num_eqn != self.q.shape[0]:', 'if num_eqn > self.q.shape[0]:')],
   'a gauge file with more fields per record than its header says',
   'the inconsistent file is accepted',
   PRE + '''
import clawpack.pyclaw.gauges as g
w = sys.argv[1]
with open(w + '/gauge00007.txt', 'w') as f:
    f.write('# gauge_id= 7 location=( 0.5 1.5 ) num_eqn= 2\\n# Columns: level time q(1 ... num_eqn)\\n')
    for k in range(3): f.write('01 %.15e 1.0 2.0 3.0\\n' % (0.1*k))
try:
    x = g.GaugeSolution(7, w)
except Exception as ex:
    print('refused', ex); sys.exit(0)
sys.exit('accepted with %d fields' % x.q.shape[0])
''')
