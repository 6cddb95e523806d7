"""Recorder for one-dimensional classic steps on prescribed Riemann solutions (KernelTrace.tla)."""
import math
import numpy as np
import simple
from clawpack import pyclaw
import ftn
S = 5040
OFF = -2147483000


def sc(x, k=S):
    v = float(x) * k
    if not np.isfinite(v) or abs(v) > 1e9:
        return OFF
    return int(np.floor(v + 0.5))


def run(lang, p, capa, nu, dx, tables, extra_aux, amp=0, tsc=0):
    """one fixed step; returns q2, cfl, aux before and after.  The data are multiplied by 2**amp and the speeds by
    2**tsc (the step length divided by it), both of which are exact and leave the formula unchanged"""
    wave, s, am, ap = tables
    A, T = 2.0 ** amp, 2.0 ** tsc
    wave, s, am, ap = wave * (A * T if p['fw'] else A), s * T, am * (A * T), ap * (A * T)
    err = []

    def rp(ql, qr, al, ar, pd=None):
        return wave.copy(), s.copy(), am.copy(), ap.copy()
    if lang == 'Python':
        sv = pyclaw.ClawSolver1D(rp)
    else:
        sv = pyclaw.ClawSolver1D(ftn.RP(rp1=ftn.rp1(rp, err)))
    sv.kernel_language = lang
    sv.num_eqn, sv.num_waves, sv.fwave = p['ne'], p['nw'], bool(p['fw'])
    sv.order = p['ord']
    sv.limiters = simple.lims(p['lim'], p['n'])
    n = p['n']
    dom = pyclaw.Domain([pyclaw.Dimension(-1.0, -1.0 + n * dx, n, name='x')])
    naux = (1 if capa else 0) + extra_aux
    st = pyclaw.State(dom, p['ne'], naux)
    sv.bc_lower[0] = sv.bc_upper[0] = pyclaw.BC.periodic
    if naux:
        sv.aux_bc_lower[0] = sv.aux_bc_upper[0] = pyclaw.BC.custom
        cap = np.array(p['cap'], float)
        if capa:
            st.index_capa = extra_aux        # the capacity is the last component

        def low(state, dim, t, qbc, auxbc, g):
            if capa:
                auxbc[-1, :g] = cap[:g]
            if extra_aux:
                auxbc[:extra_aux, :g] = 7.0

        def up(state, dim, t, qbc, auxbc, g):
            if capa:
                auxbc[-1, -g:] = cap[-g:]
            if extra_aux:
                auxbc[:extra_aux, -g:] = 9.0
        sv.user_aux_bc_lower, sv.user_aux_bc_upper = low, up
        if extra_aux:
            st.aux[:extra_aux] = np.arange(extra_aux * n).reshape(extra_aux, n) + 0.5
        if capa:
            st.aux[-1] = cap[2:-2]
    st.q[...] = np.array(p['q'], float) * A
    a0 = st.aux.copy() if naux else np.zeros((0, n))
    sv.dt_variable = False
    sv.dt = dx * nu / 64.0 / T
    sv.cfl_max = 1e3
    sol = pyclaw.Solution(st, dom)
    status = sv.evolve_to_time(sol)
    if err:
        raise RuntimeError(err[0])
    a1 = st.aux if naux else np.zeros((0, n))
    return st.q / A, float(status['cflmax']), a0, a1.copy()


def record(scn):
    ev = []
    if scn['kind'] == 'step':
        p, capa, nu = scn['p'], scn['capa'], scn['nu']
        T = (np.array(p['wave'], float), np.array(p['s'], float), np.array(p['am'], float), np.array(p['ap'], float))
        res = []
        for lang in ('Python', 'Fortran'):
            q2, cfl, a0, a1 = run(lang, p, capa, nu, scn['dx'], T, scn['xaux'], scn.get('amp', 0), scn.get('tsc', 0))
            far = scn.get('far')
            if far is not None:
                # a very much stronger jump at one interface must not be felt beyond the stencil
                J, fac = far[0] % T[0].shape[2], 2.0 ** far[1]
                T2 = [x.copy() for x in T]
                for x in (T2[0], T2[2], T2[3]):
                    x[..., J] = x[..., J] * fac
                q3 = run(lang, p, capa, nu, scn['dx'], T2, scn['xaux'], scn.get('amp', 0), scn.get('tsc', 0))[0]
                keep = [i for i in range(p['n']) if not i <= J <= i + 3]
                ev.append(dict(e='far', diff=int(not np.array_equal(q3[:, keep], q2[:, keep]))))
            ev.append(dict(e='step', lang=lang, p=p, q2=[[sc(x) for x in r] for r in q2], cfl=sc(cfl, 64),
                           aux=[sc(x, 2) for x in a0.ravel()], aux2=[sc(x, 2) for x in a1.ravel()]))
            res.append((q2, cfl))
        d = np.abs(res[0][0] - res[1][0])
        ok = np.all(np.isfinite(d)) and d.max() <= 1e-11 * (1 + np.abs(res[0][0]).max())
        ev.append(dict(e='pair', diff=int(not ok), cfldiff=int(not abs(res[0][1] - res[1][1]) <= 1e-12 * (1 + abs(res[0][1])))))
        return dict(cfg=dict(kind='step', ne=p['ne'], nw=p['nw'], fw=p['fw'], ord=p['ord'], lim=p['lim'], capa=capa), ev=ev)
    # measured limiter values: two families in separate components, no fluctuations, so that the corrections can be read off
    for lang in scn['langs']:
        nf = len(scn['lim'])
        W = np.array(scn['w'], float)           # nf x ni
        amps = np.array(scn.get('amps') or [0] * W.shape[1])
        low = amps == amps.min()                # the part with the smaller jumps is the one that is measured
        fac = 2.0 ** (amps - amps.min())
        sp = np.array(scn['s'], float)          # nf x ni
        ni = W.shape[1]
        n = ni - 3
        wave = np.zeros((nf, nf, ni))
        for f in range(nf):
            wave[f, f] = W[f] * fac
        p = dict(n=n, ne=nf, nw=nf, ord=2, fw=0, lim=scn['lim'], cap=scn.get('cap') or [1] * (n + 4), q=np.zeros((nf, n)))
        z = np.zeros((nf, ni))
        q2, cfl, a0, a1 = run(lang, p, int(bool(scn.get('cap'))), scn['nu'], scn['dx'], (wave, sp, z, z), scn.get('xaux', 0), int(amps.min()), scn.get('tsc', 0))
        cap = p['cap']
        nuf = scn['nu'] / 64.0
        tab = []
        for f in range(nf):
            # flux through interface j (0-based; interior cell i lies between interfaces i+1 and i+2)
            # (nothing passes the first and the last of them, so it is summed up from either end)
            F = 0.0
            right = not low[0]
            for i in (range(n - 1, -1, -1) if right else range(n)):
                F = F + (1 if right else -1) * q2[f, i] * cap[i + 2] / nuf
                j = i + 1 if right else i + 2
                if j > ni - 2 or j < 1 or not (low[j - 1] and low[j] and low[j + 1]):
                    break
                w = W[f, j]
                sj = sp[f, j]
                if w == 0:
                    tab.append(dict(f=f + 1, num=0, den=1, c=0, z=1, v=sc(F)))
                    continue
                up = W[f, j - 1] if sj > 0 else W[f, j + 1]
                v = F / (0.5 * abs(sj) * (1 - abs(sj) * nuf * 0.5 * (1.0 / cap[j] + 1.0 / cap[j + 1])) * w)
                num, den = int(up * w), int(w * w)
                num, den = num // math.gcd(num, den), den // math.gcd(num, den)
                tab.append(dict(f=f + 1, num=num, den=den, c=int(abs(sj) * scn['nu'] / cap[j if sj > 0 else j + 1]), z=0, v=sc(v)))
        ev.append(dict(e='phi', lang=lang, lim=scn['lim'], tab=tab))
    return dict(cfg=dict(kind='phi', lim=scn['lim']), ev=ev)
