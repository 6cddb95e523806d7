"""Recorder for the right-hand sides of SharpClaw solvers (SharpTrace.tla): one forward Euler step of a fresh solver gives the
rate; the Riemann solver is linear with coefficients taken from the auxiliary arrays of the cells it is given."""
import math
import numpy as np
from clawpack import pyclaw
from clawpack.pyclaw import BC
import ftn
R = 27720
OFF = -2147483000


def ints(a, f):
    v = np.asarray(a, float) * f
    return [int(np.floor(x + 0.5)) if np.isfinite(x) and abs(x) < 2e9 else OFF for x in v.ravel(order='F')]


def rates(p, dt=0.25, q=None):
    """p: see SharpRules.tla, plus kl (kernel language), lt (lim_type), order, ng, cpos (capacity before the coefficients)"""
    nd, n, ne = p['nd'], p['n'][:p['nd']], p['ne']
    off = 1 if p['cap'] and p['cpos'] else 0
    err = []
    mm = np.arange(1, ne + 1)[:, None]

    def rp(ixy, ql, qr, al, ar):
        d = ixy - 1
        j = mm * (qr - ql)
        L, Rr = al[off + 2 * d], ar[off + 2 * d + 1]
        w = np.zeros((ne, 2) + j.shape[1:])
        # two waves; the wave-based reconstruction sees the jump in one of them
        w[:, 1] = qr - ql
        return w, np.array([-L, Rr]), L * j, Rr * j
    if p['kl'] == 'Python':
        s = pyclaw.SharpClawSolver1D(lambda ql, qr, al, ar, pd: rp(1, ql, qr, al, ar))
        s.kernel_language = 'Python'
    elif nd == 1:
        s = pyclaw.SharpClawSolver1D(ftn.RP(rp1=ftn.rp1(lambda *a: rp(1, *a), err)))
    elif nd == 2:
        s = pyclaw.SharpClawSolver2D(ftn.RP(rpn2=ftn.rpn2(rp, err, True)))
    else:
        s = pyclaw.SharpClawSolver3D(ftn.RP(rpn3=ftn.rpn3(rp, err, True)))
    s.num_eqn, s.num_waves, s.fwave = ne, 2, False
    s.lim_type, s.weno_order, s.char_decomp = p['lt'], p.get('order', 5), p.get('cd', 0)
    lim = [int(x) for x in p['lim']]
    s.limiters = lim[:1] if p.get('onelim') or p.get('cd') else lim
    if p['lt'] != 2 and p.get('ng'):
        s.num_ghost = p['ng']
    s.time_integrator = 'Euler'
    s.cfl_max, s.cfl_desired = 1e9, 1e8
    s.dt_variable, s.dt = False, dt
    for d in range(nd):
        b = BC.periodic if p['bc'][d] == 'p' else BC.extrap
        s.bc_lower[d] = s.bc_upper[d] = s.aux_bc_lower[d] = s.aux_bc_upper[d] = b
    dom = pyclaw.Domain([pyclaw.Dimension(0.0, n[i] / float(p['ix'][i]), n[i], name='xyz'[i]) for i in range(nd)])
    na = 2 * nd + (1 if p['cap'] else 0)
    st = pyclaw.State(dom, ne, na)
    for a in range(2 * nd):
        st.aux[off + a] = np.array(p['aux'][a], float).reshape(n, order='F')
    if p['cap']:
        st.index_capa = 0 if off else na - 1
        st.aux[st.index_capa] = np.array(p['cap'], float).reshape(n, order='F') / 2.0
    if q is None:
        q = np.array(p['q'], float)
    sc = 2.0 ** p.get('sc', 0)       # small or large amplitudes: the rates of these linear problems scale with the data
    q = q * sc
    for m in range(ne):
        st.q[m] = q[m].reshape(n, order='F')
    q0, a0 = st.q.copy(), st.aux.copy()
    sol = pyclaw.Solution(st, dom)
    s.evolve_to_time(sol)
    if err:
        raise RuntimeError(err[0])
    r = (sol.state.q - q0) / dt / sc
    return r, s.status['cflmax'] / dt, int(np.array_equal(sol.state.aux, a0) and abs(sol.t - dt) < 1e-12)


def rate_ev(p):
    r, c, kept = rates(p)
    return dict(e='rate', p=p, r=[ints(r[m], R) for m in range(p['ne'])], cfl=ints(c, 64)[0], kept=kept)


def line(k, n, A, u, lt=2):
    return dict(nd=1, n=[n, 1, 1], ne=1, q=[A], aux=[[0] * n, [u] * n] if u > 0 else [[u] * n, [0] * n], cap=[], cpos=0,
                bc=['e'], ix=[1], kl='Fortran', lt=lt, order=2 * k - 1, lim=[1], scheme='weno')


def record(scn):
    b = scn['cfg']
    rng = np.random.RandomState(b['seed'])
    ev = []
    if b['kind'] == 'rate':
        ev.append(rate_ev(scn['p']))
    elif b['kind'] == 'lin':
        k = b['k']
        n = 2 * k + 9
        at = k + 5
        bits = rng.randint(-2, 3, size=n)
        unit = 2520 * math.comb(2 * k - 1, k)
        delta = 1e-6 if k < 7 else 1e-7
        for u in (1, -1):
            A = np.arange(n) - float(at) + 0.5 + delta * bits
            r, _, _ = rates(line(k, n, A, u, b['lt']), dt=1.0, q=A[None])
            ev.append(dict(e='lin', k=k, u=u, at=at, b=bits.tolist(), unit=unit, r=ints((r[0, at - 1] + u) / delta, unit)[0]))
    elif b['kind'] == 'poly':
        k = b['k']
        n = 2 * k + 3
        at = k + 2
        c = rng.randint(-3, 4, size=k)
        if b['top']:
            c[:-1] = 0
            c[-1] = rng.choice([-2, 1, 3])

        def gb(x, m):
            v = 1
            for j in range(m):
                v = v * (x - j) // (j + 1)
            return v
        A = [int(sum(int(c[m]) * gb(x - at, m) for m in range(k))) for x in range(1, n + 1)]
        for u in (1, -1):
            r, _, _ = rates(line(k, n, A, u, b['lt']), dt=1.0)
            ev.append(dict(e='poly', k=k, u=u, at=at, c=c.tolist(), q=A, r=ints(r[0, at - 1], 840)[0]))
    elif b['kind'] == 'flat':
        k = b['k']
        m = 2 * k
        n = m + k + 3
        A = [b['v']] * m + rng.randint(-3, 4, size=n - m).tolist()
        if A[m] == b['v']:
            A[m] = b['v'] + 1
        for u in (1, -1):
            r, _, _ = rates(line(k, n, A, u, b['lt']), dt=1.0)
            ev.append(dict(e='flat', k=k, u=u, m=m, q=A, r=ints(r[0], 10 ** 6)))
    elif b['kind'] == 'zero':
        p = scn['p']
        r, _, _ = rates(p)
        ev.append(dict(e='zero', p=p, r=ints(r, 10 ** 6)))
    elif b['kind'] == 'pair':
        p, p2 = scn['p'], scn['p2']
        ra, rb = rates(p)[0], rates(p2)[0]
        if p.get('rec_ne'):
            p, p2 = dict(p, ne=1), dict(p2, ne=1)
        ev.append(dict(e='pair', rel=b['rel'], d=b.get('d', 1), d2=b.get('d2', 1), by=b.get('by', [0, 0, 0]), fa=b.get('fa', 1),
                       fb=b.get('fb', 1), tol=b.get('tol', 4), p=p, p2=p2, a=[ints(ra[m], 10 ** 5) for m in range(p['ne'])],
                       b=[ints(rb[m], 10 ** 5) for m in range(p['ne'])]))
    return dict(cfg=b, ev=ev)
