"""Recorder for two- and three-dimensional classic steps on prescribed Riemann solutions (MultiTrace.tla)."""
import itertools
import numpy as np
import simple
from clawpack import pyclaw, riemann
from clawpack.pyclaw import BC
import ftn
from rec_kernel import sc
S = 5040


def tup(a):
    return [tup(x) for x in a] if isinstance(a, np.ndarray) and a.ndim else sc(a)


def table_step(nd, n, ne, nw, tabs, Q, cap, nu, opts, split_fn, split2_fn=None, xaux=0):
    """One fixed step.  tabs[d] = wave (ne,nw,cells...), s, am, ap for the interface above each cell in direction d, all over
    cells with ghosts; Q (ne, cells) with ghosts; the last, extra, component of q identifies the cell."""
    g = 2
    err = []
    shape = tuple(x + 2 * g for x in n)
    ids = np.arange(int(np.prod(shape))).reshape(shape).astype(float)
    full = np.concatenate([Q, ids[None]], axis=0)
    flat = [[t.reshape(t.shape[:-nd] + (-1,)) for t in tabs[d]] for d in range(nd)]

    def rpn(ixy, ql, qr):
        lid = np.rint(ql[-1]).astype(int)
        W, s, am, ap = flat[ixy - 1]
        z = np.zeros((1, len(lid)))
        wave = np.concatenate([W[:, :, lid], np.zeros((1, nw, len(lid)))], axis=0)
        return wave, s[:, lid], np.concatenate([am[:, lid], z]), np.concatenate([ap[:, lid], z])

    def rpt(lead, A, ql, qr):
        return split_fn(lead, A)
    if nd == 2:
        rp = ftn.RP(rpn2=ftn.rpn2(rpn, err), rpt2=ftn.rpt2(rpt, err))
        sv = pyclaw.ClawSolver2D(rp)
    else:
        rp = ftn.RP(rpn3=ftn.rpn3(rpn, err), rpt3=ftn.rpt3(rpt, err),
                    rptt3=ftn.rptt3(lambda lead, A, ql, qr: split2_fn(lead, A), err))
        sv = pyclaw.ClawSolver3D(rp)
    sv.num_eqn, sv.num_waves, sv.fwave = ne + 1, nw, bool(opts['fw'])
    sv.order = opts['ord']
    sv.limiters = simple.lims(opts['lim'], n[0] + n[1])
    sv.dimensional_split = bool(opts['split'])
    if not opts['split']:
        sv.transverse_waves = opts['tr']
    dt = 0.25
    dx = [dt * 64.0 / v for v in nu]
    dom = pyclaw.Domain([pyclaw.Dimension(0.0, n[i] * dx[i], n[i], name='xyz'[i]) for i in range(nd)])
    naux = xaux + (1 if cap is not None else 0)
    st = pyclaw.State(dom, ne + 1, naux)
    inner = (slice(None),) + (slice(g, -g),) * nd
    st.q[...] = full[inner]
    for d in range(nd):
        sv.bc_lower[d] = sv.bc_upper[d] = BC.custom
        sv.aux_bc_lower[d] = sv.aux_bc_upper[d] = BC.custom

    def fill(state, dim, t, qbc, auxbc, num_ghost):
        keep = qbc[inner].copy()
        qbc[...] = full
        qbc[inner] = keep

    def afill(state, dim, t, qbc, auxbc, num_ghost):
        if cap is not None:
            keep = auxbc[inner].copy()
            auxbc[-1] = cap
            auxbc[inner] = keep
        auxbc[:xaux] = 3.5
    sv.user_bc_lower = sv.user_bc_upper = fill
    sv.user_aux_bc_lower = sv.user_aux_bc_upper = afill
    if naux:
        st.aux[...] = 3.5
        if cap is not None:
            st.index_capa = naux - 1
            st.aux[-1] = cap[inner[1:]]
    a0 = st.aux.copy() if naux else None
    sv.dt_variable = False
    sv.dt = dt
    sv.cfl_max = 1e3
    sol = pyclaw.Solution(st, dom)
    status = sv.evolve_to_time(sol)
    if err:
        raise RuntimeError(err[0])
    ok = (naux == 0 or np.array_equal(a0, st.aux)) and np.allclose(st.q[-1], ids[inner[1:]], rtol=0, atol=1e-9)
    return st.q[:-1].copy(), float(status['cflmax']), int(ok)


def plane(scn):
    p = scn['p']
    nx, ny = p['n']
    ne, nw = p['ne'], p['nw']
    X, Y = nx + 4, ny + 4
    tabs = []
    for d, rows in ((0, p['x']), (1, p['y'])):
        W = np.zeros((ne, nw, X, Y)); s = np.ones((nw, X, Y)); am = np.zeros((ne, X, Y)); ap = np.zeros((ne, X, Y))
        for j, t in enumerate(rows):
            L = len(t['s'][0])
            sl = (slice(0, L), j) if d == 0 else (j, slice(0, L))
            W[(slice(None), slice(None)) + sl] = np.array(t['wave'], float)
            s[(slice(None),) + sl] = np.array(t['s'], float)
            am[(slice(None),) + sl] = np.array(t['am'], float)
            ap[(slice(None),) + sl] = np.array(t['ap'], float)
        tabs.append((W, s, am, ap))
    Q = np.zeros((ne, X, Y))
    Q[:, 2:-2, 2:-2] = np.array(p['q'], float)
    Q[:, :2] = 77.0; Q[:, -2:] = -55.0; Q[:, :, :2] = 33.0; Q[:, :, -2:] = 11.0
    cap = np.array(p['k'], float) if scn['capa'] else None

    def split(lead, A):
        d, imp = lead[0] - 1, lead[1] - 1
        return p['vm'][d][imp] * A, p['vp'][d][imp] * A
    ev = []
    runs = [0] if p['tr'] else [0, 1]
    for sp in runs:
        q2, cfl, ok = table_step(2, [nx, ny], ne, nw, tabs, Q, cap, p['nu'],
                                 dict(fw=p['fw'], ord=p['ord'], lim=p['lim'], split=sp, tr=p['tr']), split, xaux=scn['xaux'])
        ev.append(dict(e='plane', split=sp, p=p, q2=tup(q2), cfl=sc(cfl, 64), aux=ok))
    return ev


def space(scn):
    p = scn['p']
    n = p['n']
    ne, nw = p['ne'], p['nw']
    shape = tuple(x + 4 for x in n)
    tape = np.array(p['tape'], int)
    co, key, on, vel = p['co'], p['key'], p['on'], p['vel']
    I = np.meshgrid(*[np.arange(1, s + 1) for s in shape], indexing='ij')
    at = co[0] * I[0] + co[1] * I[1] + co[2] * I[2]
    get = lambda k: tape[np.asarray(k) % len(tape)]
    Q = np.array([get(at + 71 * m) for m in range(1, ne + 1)], float)
    tabs = []
    for d in range(3):
        if p['adv']:
            J = np.zeros_like(Q)
            lo = [slice(None)] * 4; hi = [slice(None)] * 4
            lo[d + 1] = slice(0, -1); hi[d + 1] = slice(1, None)
            J[tuple(lo)] = Q[tuple(hi)] - Q[tuple(lo)]
            W = J[:, None] * (1.0 if on[d] else 0.0)
            s = np.full((nw,) + shape, float(vel[d]))
            am, ap = min(vel[d], 0) * J, max(vel[d], 0) * J
        else:
            W = np.array([[on[d] * get(at + 17 * key[d] + 5 * m + 3 * w) for w in range(1, nw + 1)] for m in range(1, ne + 1)], float)
            v = np.array([get(at + 19 * key[d] + 7 * w + 100) for w in range(1, nw + 1)])
            v = np.clip(v, -2, 2)
            if p['fw']:
                v[v == 0] = 1
            s = v.astype(float)
            am = np.array([on[d] * get(at + 23 * key[d] + 11 * m + 200) for m in range(1, ne + 1)], float)
            ap = np.array([on[d] * get(at + 29 * key[d] + 13 * m + 300) for m in range(1, ne + 1)], float)
        tabs.append((W, s, am, ap))
    cap = None
    if p['capa']:
        v = np.abs(get(at + 400))
        cap = np.where(v < 2, 1.0, np.where(v < 4, 2.0, 4.0))

    def V(a, d, e, s_):
        if p['adv']:
            return min(vel[d], 0) if e == 1 else max(vel[d], 0)
        return int(get(37 * key[a] + 41 * key[d] + 3 * e + (5 * s_ if p['capa'] else 0))) % 3 - 1

    def V2(a, d, e, s_, f):
        if p['adv']:
            return min(vel[d], 0) if e == 1 else max(vel[d], 0)
        return int(get(43 * key[a] + 47 * key[d] + 3 * e + 5 * s_ + 7 * f + 50)) % 3 - 1

    def split(lead, A):
        a, ic, imp = lead
        d = (a - 1 + ic - 1) % 3
        return V(a - 1, d, 1, imp) * A, V(a - 1, d, 2, imp) * A

    def split2(lead, A):
        a, ic, imp, impt = lead
        d = (a - 1 + ic - 1) % 3
        return V2(a - 1, d, 1, imp, impt) * A, V2(a - 1, d, 2, imp, impt) * A
    ev = []
    tr = 10 * p['m3'] + p['m4']
    for sp in ([0, 1] if tr == 0 else [0]):
        q2, cfl, ok = table_step(3, n, ne, nw, tabs, Q, cap, p['nu'],
                                 dict(fw=p['fw'], ord=p['ord'], lim=p['lim'], split=sp, tr=tr), split, split2, xaux=scn['xaux'])
        ev.append(dict(e='space', split=sp, p=p, q2=tup(q2), cfl=sc(cfl, 64), aux=ok))
    return ev


def system(spec):
    """Riemann solver of the linear system (or Burgers' equation) of one direction"""
    if spec == 'burgers':
        def rp(ql, qr, *a):
            w = (qr - ql)[:, None, :]
            s = 0.5 * (ql[0] + qr[0])
            d = w[:, 0, :]
            return w, s[None], np.minimum(s, 0) * d, np.maximum(s, 0) * d
        return rp
    R = np.array(spec['R'], float); lam = np.array(spec['s'], float)
    L = np.linalg.inv(R)

    def rp(ql, qr, *a):
        al = L @ (qr - ql)
        nw = len(lam)
        wave = R[:, :, None] * al[None, :, :]
        s = np.repeat(lam[:, None], ql.shape[1], axis=1)
        am = np.einsum('mwi,w->mi', wave, np.minimum(lam, 0))
        ap = np.einsum('mwi,w->mi', wave, np.maximum(lam, 0))
        return wave, s, am, ap
    return rp


def transverse(spec):
    R = np.array(spec['R'], float); lam = np.array(spec['s'], float)
    L = np.linalg.inv(R)
    Bm, Bp = R @ np.diag(np.minimum(lam, 0)) @ L, R @ np.diag(np.maximum(lam, 0)) @ L
    return Bm, Bp


def q_step(nd, specs, q, dx, dt, opts, bcs, capa=None):
    """one step on data q with periodic boundaries, nd = 1, 2, 3"""
    err = []
    rps = [system(s) for s in specs]
    nw = 1 if specs[0] == 'burgers' else len(specs[0]['s'])
    if nd == 1:
        rp = ftn.RP(rp1=ftn.rp1(rps[0], err)); cls = pyclaw.ClawSolver1D
    else:
        def rpn(ixy, ql, qr):
            return rps[ixy - 1](ql, qr)

        def rpt(lead, A, ql, qr):
            d = (2 - lead[0]) if nd == 2 else (lead[0] - 1 + lead[1] - 1) % 3
            if specs[d] == 'burgers':
                s = 0.5 * (ql[0] + qr[0])
                return np.minimum(s, 0) * A, np.maximum(s, 0) * A
            Bm, Bp = transverse(specs[d])
            return Bm @ A, Bp @ A
        if nd == 2:
            rp = ftn.RP(rpn2=ftn.rpn2(rpn, err), rpt2=ftn.rpt2(rpt, err)); cls = pyclaw.ClawSolver2D
        else:
            rp = ftn.RP(rpn3=ftn.rpn3(rpn, err), rpt3=ftn.rpt3(rpt, err), rptt3=ftn.rptt3(rpt, err)); cls = pyclaw.ClawSolver3D
    sv = cls(rp)
    sv.num_eqn, sv.num_waves, sv.fwave = q.shape[0], nw, False
    sv.order, sv.limiters = opts['ord'], opts['lim']
    if nd > 1:
        sv.dimensional_split = bool(opts['split'])
        if not opts['split']:
            sv.transverse_waves = opts['tr']
    n = q.shape[1:]
    dom = pyclaw.Domain([pyclaw.Dimension(0.0, n[i] * dx[i], n[i], name='xyz'[i]) for i in range(nd)])
    st = pyclaw.State(dom, q.shape[0], 0 if capa is None else 1)
    if capa is not None:
        st.aux[0] = capa
        st.index_capa = 0
    st.q[...] = q
    for d in range(nd):
        sv.bc_lower[d], sv.bc_upper[d] = bcs[d]
        sv.aux_bc_lower[d], sv.aux_bc_upper[d] = bcs[d]
    sv.dt_variable = False
    sv.dt = dt
    sv.cfl_max = 1e3
    sol = pyclaw.Solution(st, dom)
    for _ in range(opts.get('steps', 1)):
        sv.evolve_to_time(sol)
    if err:
        raise RuntimeError(err[0])
    return st.q.copy()


def flat(a):
    return [sc(x) for x in np.asarray(a).ravel(order='F')]


PER = (BC.periodic, BC.periodic)
EXT = (BC.extrap, BC.extrap)


def sweeps(scn):
    """a split step against successive one-dimensional sweeps"""
    rng = np.random.RandomState(scn['seed'])
    nd, n, specs, dx, dt = scn['nd'], scn['n'], scn['specs'], scn['dx'], scn['dt']
    ne = 1 if specs[0] == 'burgers' else len(specs[0]['s'])
    q = rng.randint(-4, 5, size=(ne,) + tuple(n)).astype(float)
    o = dict(scn['opts'], split=1)
    capa = rng.choice([1.0, 2.0], size=tuple(n)) if scn['capa'] else None
    bc = [PER if b else EXT for b in scn['per']]
    a = q_step(nd, specs, q, dx, dt, o, bc, capa)
    b = q.copy()
    for d in range(nd):
        new = b.copy()
        others = [range(n[e]) for e in range(nd) if e != d]
        for ix in itertools.product(*others):
            sel = list(ix); sel.insert(d, slice(None))
            sel = (slice(None),) + tuple(sel)
            new[sel] = q_step(1, [specs[d]], b[sel], [dx[d]], dt, o, [bc[d]], None if capa is None else capa[sel[1:]])
        b = new
    return [dict(e='same', what='C10.split', a=flat(a), b=flat(b), tol=1)]


def reduce_(scn):
    """data varying in one direction only, every algorithm, against the one-dimensional step"""
    rng = np.random.RandomState(scn['seed'])
    nd, n, specs, dx, dt, d = scn['nd'], scn['n'], scn['specs'], scn['dx'], scn['dt'], scn['dir']
    ne = 1 if specs[0] == 'burgers' else len(specs[0]['s'])
    line = rng.randint(-4, 5, size=(ne, n[d])).astype(float)
    shp = [1] * nd; shp[d] = n[d]
    q = np.empty((ne,) + tuple(n)); q[...] = line.reshape([ne] + shp)
    capa = None; cl = None
    if scn['capa']:
        cl = rng.choice([1.0, 2.0], size=n[d])
        capa = np.empty(tuple(n)); capa[...] = cl.reshape(shp)
    bc = [PER if b else EXT for b in scn['per']]
    a = q_step(nd, specs, q, dx, dt, scn['opts'], bc, capa)
    b1 = q_step(1, [specs[d]], line, [dx[d]], dt, dict(scn['opts'], split=0), [bc[d]], cl)
    b = np.empty_like(q); b[...] = b1.reshape([ne] + shp)
    return [dict(e='same', what='C10.reduction', a=flat(a), b=flat(b), tol=2)]


def exchange(scn):
    """exchange of directions, nonlinear or linear, several steps"""
    rng = np.random.RandomState(scn['seed'])
    nd, n, specs, dx, dt, perm = scn['nd'], scn['n'], scn['specs'], scn['dx'], scn['dt'], scn['perm']
    ne = 1 if specs[0] == 'burgers' else len(specs[0]['s'])
    q = rng.randint(-4, 5, size=(ne,) + tuple(n)).astype(float)
    capa = rng.choice([1.0, 2.0], size=tuple(n)) if scn['capa'] else None
    bc = [PER if b else EXT for b in scn['per']]
    a = q_step(nd, specs, q, dx, dt, scn['opts'], bc, capa)
    T = lambda x: np.ascontiguousarray(np.transpose(x, [0] + [1 + i for i in perm]))
    b = q_step(nd, [specs[i] for i in perm], T(q), [dx[i] for i in perm], dt, scn['opts'], [bc[i] for i in perm],
               None if capa is None else np.ascontiguousarray(np.transpose(capa, perm)))
    return [dict(e='same', what='C10.exchange', a=flat(T(a)), b=flat(b), tol=2)]


def acoustics(scn):
    """the installed acoustics solvers in one and two dimensions on plane data"""
    rng = np.random.RandomState(scn['seed'])
    n, d = scn['n'], scn['dir']
    line = rng.randint(-4, 5, size=(2, n[d])).astype(float)

    def run(nd):
        sv = {1: pyclaw.ClawSolver1D, 2: pyclaw.ClawSolver2D}[nd]({1: riemann.acoustics_1D, 2: riemann.acoustics_2D}[nd])
        ns = [n[d]] if nd == 1 else n
        dom = pyclaw.Domain([pyclaw.Dimension(0.0, 1.0, m, name='xy'[i]) for i, m in enumerate(ns)])
        st = pyclaw.State(dom, nd + 1)
        st.problem_data.update(rho=1.0, bulk=4.0, cc=2.0, zz=2.0)
        sv.order, sv.limiters = scn['opts']['ord'], scn['opts']['lim']
        if nd == 2:
            sv.dimensional_split = bool(scn['opts']['split'])
            if not scn['opts']['split']:
                sv.transverse_waves = scn['opts']['tr']
        for k in range(nd):
            sv.bc_lower[k] = sv.bc_upper[k] = BC.periodic if scn['per'] else BC.extrap
        if nd == 1:
            st.q[...] = line
        else:
            st.q[...] = 0.0
            shp = [n[0], 1] if d == 0 else [1, n[1]]
            st.q[0] += line[0].reshape(shp)
            st.q[1 + d] += line[1].reshape(shp)
        sv.dt_variable = False; sv.dt = 0.2 / max(n); sv.cfl_max = 1e3
        sol = pyclaw.Solution(st, dom)
        sv.evolve_to_time(sol)
        return st.q.copy()
    a, b1 = run(2), run(1)
    b = np.zeros_like(a)
    shp = [n[0], 1] if d == 0 else [1, n[1]]
    b[0] += b1[0].reshape(shp)
    b[1 + d] += b1[1].reshape(shp)
    return [dict(e='same', what='C10.reduction', a=flat(a), b=flat(b), tol=2)]


KIND = dict(plane=plane, space=space, sweeps=sweeps, reduce=reduce_, exchange=exchange, acoustics=acoustics)


def record(scn):
    ev = KIND[scn['kind']](scn)
    c = dict((k, v) for k, v in scn.items() if k not in ('p',))
    return dict(cfg=dict(kind=scn['kind']), ev=ev)
