import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import mk
PRE = '''
import sys, os, copy, numpy as np, logging
from clawpack import pyclaw, riemann
logging.disable(logging.CRITICAL)
'''
mk('C09a', 'C09', [('src/pyclaw/classic/step1.f90', '''                    dtdxave = 0.5d0 * (dtdx(i-1) + dtdx(i))
                    f(m,i) = f(m,i) + 0.5d0 * dsign''', '''                    dtdxave = dtdx(i)
                    f(m,i) = f(m,i) + 0.5d0 * dsign''')],
   'an f-wave Riemann solver, second order, and a capacity that varies between cells',
   'the second-order correction of the compiled kernel uses the wrong step to width ratio, so it differs from the formula and from the Python kernel',
   PRE + '''
import ctypes
def run(lang):
    # variable-coefficient acoustics in f-wave form
    n = 16
    rp = riemann.traffic_vc_fwave_1D if lang == 'Fortran' else None
    return rp
n = 16
src = {}
for order in (2,):
    s = pyclaw.ClawSolver1D(riemann.traffic_vc_fwave_1D)
    s.kernel_language = 'Fortran'; s.fwave = True; s.order = 2; s.limiters = 0
    s.bc_lower[0] = s.bc_upper[0] = pyclaw.BC.periodic
    s.aux_bc_lower[0] = s.aux_bc_upper[0] = pyclaw.BC.periodic
    s.cfl_max = 1e3; s.dt_variable = False; s.dt = 0.01
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., n, name='x')])
    st = pyclaw.State(dom, 1, 2)
    x = st.grid.x.centers
    st.aux[0, :] = 1.0
    st.aux[1, :] = 1.0 + 0.5*np.sin(2*np.pi*x)
    st.index_capa = 1
    q = 0.1 + 0.02*np.cos(2*np.pi*x)
    st.q[0, :] = q
    s.evolve_to_time(pyclaw.Solution(st, dom))
    # f = q (1 - q), all speeds positive: formula with the mean of dt/dx on both sides
    f = lambda v: v*(1 - v)
    d = 0.01*n/st.aux[1]
    qm = np.roll(q, 1); z = f(q) - f(qm); sp = 1 - 2*q
    dm = 0.5*(d + np.roll(d, 1))
    F = 0.5*np.sign(sp)*(1 - abs(sp)*dm)*z
    ex = q - d*z - d*(np.roll(F, -1) - F)
    assert np.abs(ex - st.q[0]).max() < 1e-12, np.abs(ex - st.q[0]).max()
''')
mk('C09b', 'C09', [('src/pyclaw/classic/limiter.f90', '            if (wnorm2 == 0.d0) cycle\n', '            if (wnorm2 <= 1.d-22) cycle\n')],
   'waves of small amplitude (jumps below 1e-11, for instance a small perturbation or small physical units)',
   'small waves are left unlimited by the compiled kernel, so the result is not the limited formula and differs from the Python kernel',
   PRE + '''
res = []
for lang, rp in (('Fortran', riemann.advection_1D), ('Python', riemann.advection_1D_py.advection_1D)):
    s = pyclaw.ClawSolver1D(rp); s.kernel_language = lang
    s.all_bcs = pyclaw.BC.periodic; s.limiters = 4
    s.num_eqn = s.num_waves = 1
    if lang == 'Python': s.fwave = False
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 20, name='x')])
    st = pyclaw.State(dom, 1); st.problem_data['u'] = 1.
    st.q[0, :] = 1e-12*(st.grid.x.centers > 0.5)
    s.dt_variable = False; s.dt = 0.02
    sol = pyclaw.Solution(st, dom)
    s.evolve_to_time(sol, 0.2)
    assert sol.q.min() >= -1e-19 and sol.q.max() <= 1e-12*(1 + 1e-9), (lang, sol.q.min(), sol.q.max())
    res.append(sol.q.copy())
assert np.abs(res[0] - res[1]).max() < 1e-20
''')
mk('C10a', 'C10', [('src/pyclaw/classic/step2ds.f90', """                do j = 1-num_ghost, my+num_ghost
                    dtdy1d(j) = dtdy / aux(index_capa,i,j)""", """                do j = 1-num_ghost, min(mx,my)+num_ghost
                    dtdy1d(j) = dtdy / aux(index_capa,i,j)""")],
   'a dimensionally split two-dimensional run with a capacity function on a grid with more cells in y than in x',
   'the sweep in y uses the capacity of another column in the upper part of the grid, so exchanging x and y changes the result',
   PRE + '''
def run(sw):
    n = (6, 14)
    s = pyclaw.ClawSolver2D(riemann.advection_2D)
    s.all_bcs = pyclaw.BC.periodic
    for d in (0, 1): s.aux_bc_lower[d] = s.aux_bc_upper[d] = pyclaw.BC.periodic
    s.dimensional_split = True; s.order = 1
    s.dt_variable = False; s.dt = 0.02; s.cfl_max = 10.
    n = n[::-1] if sw else n
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., n[0], name='x'), pyclaw.Dimension(0., 1., n[1], name='y')])
    st = pyclaw.State(dom, 1, 1)
    X, Y = st.grid.p_centers
    if sw: X, Y = Y, X
    st.problem_data['u'] = 1. if sw else 0.; st.problem_data['v'] = 0. if sw else 1.
    st.q[0] = np.sin(2*np.pi*X)*np.cos(2*np.pi*Y) + X*Y
    st.aux[0] = 1.5 + np.sin(2*np.pi*X + 1)*np.cos(4*np.pi*Y); st.index_capa = 0
    sol = pyclaw.Solution(st, dom)
    s.evolve_to_time(sol)
    return sol.q[0].T if sw else sol.q[0]
assert np.abs(run(0) - run(1)).max() < 1e-13, np.abs(run(0) - run(1)).max()
''')
W = 'src/pyclaw/sharpclaw/weno.f90'
mk('C14a', 'C14', [(W, 'omega7 = 0.16233766233766233766233766233766234d0/(1.0e-36 + sigma1)**2', 'omega7 = 0.16233766233766233766233766233766234d0/(1.0e-36 + sigma2)**2')],
   'eleventh-order reconstruction of data that are not smooth',
   'one weight of the right-edge reconstruction uses the smoothness of a neighbouring stencil, so right- and left-going waves are treated differently',
   PRE + '''
def rate(q, u):
    s = pyclaw.SharpClawSolver1D(riemann.advection_1D)
    s.all_bcs = pyclaw.BC.periodic; s.weno_order = 11
    s.time_integrator = 'Euler'; s.cfl_max = 10.; s.cfl_desired = 1.; s.dt_variable = False; s.dt = 1e-3
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 30, name='x')])
    st = pyclaw.State(dom, 1); st.problem_data['u'] = u
    st.q[0] = q
    sol = pyclaw.Solution(st, dom); s.evolve_to_time(sol)
    return sol.q[0]
q = np.random.RandomState(1).rand(30)
assert np.abs(rate(q, 1.) - rate(q[::-1], -1.)[::-1]).max() < 1e-9
''')
mk('C14b', 'C14', [('src/pyclaw/sharpclaw/flux3.f90', '''            forall(k=1:mz,m=1:num_eqn)
                dq(m,i,j,k) = dq(m,i,j,k)+dq1d(m,k)''', '''            forall(k=1:min(mx,mz),m=1:num_eqn)
                dq(m,i,j,k) = dq(m,i,j,k)+dq1d(m,k)''')],
   'a three-dimensional SharpClaw grid with more cells in z than in x',
   'the z-derivative is missing in the upper cells of the grid',
   PRE + '''
def run(n, ax):
    s = pyclaw.SharpClawSolver3D(riemann.vc_advection_3D); s.num_eqn = 1; s.num_waves = 1; s.fwave = False
    s.all_bcs = pyclaw.BC.periodic
    for d in range(3): s.aux_bc_lower[d] = s.aux_bc_upper[d] = pyclaw.BC.periodic
    s.time_integrator = 'Euler'; s.cfl_max = 10.; s.cfl_desired = 1.; s.dt_variable = False; s.dt = 1e-3
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., n[i], name='xyz'[i]) for i in range(3)])
    st = pyclaw.State(dom, 1, 3)
    st.aux[:] = 1.
    st.q[0] = np.sin(2*np.pi*st.grid.p_centers[ax])
    sol = pyclaw.Solution(st, dom); s.evolve_to_time(sol)
    return np.moveaxis(sol.q[0], ax, 0)[:, 2, 2]
a, b = run((12, 6, 6), 0), run((6, 6, 12), 2)
assert np.abs(a - b).max() < 1e-12, np.abs(a - b).max()
''')
mk('C22a', 'C22', [('src/pyclaw/limiters/tvd.py', """                cfl = np.abs(s[mw,1:-1]*(dtdx[1:-2]*spos[mw,:] 
                                        + (1-spos[mw,:])*dtdx[2:-1]))""", """                cfl = s[mw,1:-1]*(dtdx[1:-2]*spos[mw,:] 
                                        + (1-spos[mw,:])*dtdx[2:-1])""")],
   'a limiter that depends on the Courant number and a wave that moves to the left (Python kernel)',
   'the limiter sees a negative Courant number, so left-going waves are limited differently from right-going ones',
   PRE + '''
def run(u, lim):
    s = pyclaw.ClawSolver1D(riemann.advection_1D_py.advection_1D); s.kernel_language = 'Python'
    s.all_bcs = pyclaw.BC.periodic; s.limiters = lim; s.num_eqn = s.num_waves = 1; s.fwave = False
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 20, name='x')])
    st = pyclaw.State(dom, 1); st.problem_data['u'] = u
    q = np.random.RandomState(3).rand(20)
    st.q[0, :] = q if u > 0 else q[::-1]
    s.dt_variable = False; s.dt = 0.03
    sol = pyclaw.Solution(st, dom)
    s.evolve_to_time(sol)
    return sol.q[0] if u > 0 else sol.q[0, ::-1]
for lim in (10, 11, 13):
    assert np.abs(run(1., lim) - run(-1., lim)).max() < 1e-12, lim
''')
mk('C22b', 'C22', [('src/pyclaw/limiters/tvd.py', "wave_zero_mask = np.array((wave_norm2 == 0), dtype=float)", "wave_zero_mask = np.array((wave_norm2 < 1e-14*np.max(wave_norm2)), dtype=float)")],
   'a small wave somewhere and a very much stronger one anywhere else in the domain (Python kernel)',
   'whether a wave is limited depends on the strength of waves elsewhere',
   PRE + '''
def run(big):
    s = pyclaw.ClawSolver1D(riemann.advection_1D_py.advection_1D); s.kernel_language = 'Python'
    s.bc_lower[0] = s.bc_upper[0] = pyclaw.BC.extrap; s.limiters = 1; s.num_eqn = s.num_waves = 1; s.fwave = False
    dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 40, name='x')])
    st = pyclaw.State(dom, 1); st.problem_data['u'] = 1.
    q = np.zeros(40); q[10:] = 1e-6; q[30:] = big
    st.q[0, :] = q
    s.dt_variable = False; s.dt = 0.01
    sol = pyclaw.Solution(st, dom)
    s.evolve_to_time(sol)
    return sol.q[0, :25]
assert np.abs(run(1e-6) - run(100.)).max() < 1e-20
''')
