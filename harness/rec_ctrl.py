"""Recorder for controller runs (CtrlTrace.tla)."""
import os, shutil, tempfile, re, hashlib
import numpy as np
from clawpack import pyclaw
from rec_step import Sim, ticks, TICK, OFF


def tree_hash(d):
    h = hashlib.sha1()
    for root, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def frames_on_disk(path, fmt, prefix):
    """frame numbers present in a directory for one format"""
    pre = {'ascii': 'fort.t', 'hdf5': 'claw', 'vtk': 'claw'}[fmt]
    if prefix:
        pre = prefix + ('.t' if fmt == 'ascii' else '')
    pat = {'ascii': r'%s(\d{4})$', 'hdf5': r'%s(\d{4})\.hdf$', 'vtk': r'%s(\d{4})\.vtu$'}[fmt] % re.escape(pre)
    res = []
    if os.path.isdir(path):
        for f in os.listdir(path):
            m = re.match(pat, f)
            if m:
                res.append(int(m.group(1)))
    return sorted(res)


def rd(num, fmt, path, prefix, aux):
    kw = dict(file_prefix=prefix) if prefix else {}
    if fmt == 'ascii':
        return pyclaw.Solution(num, path=path, file_format=fmt, read_aux=aux, **kw)
    # with ascii files beside it the header would select the ascii reader
    from clawpack.pyclaw.fileio import hdf5
    s = pyclaw.Solution()
    hdf5.read(s, num, path, read_aux=aux, **kw)
    return s


class Runaway(BaseException):
    pass


def record(scn):
    d = tempfile.mkdtemp(prefix='ctl', dir='.')
    try:
        return _record(scn, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _record(scn, d):
    b = dict(scn['cfg'])
    spd = scn['speeds']
    sim = Sim(b)
    s, sol = sim.s, sim.sol
    nd = sim.nd
    outdir = os.path.join(d, 'out')
    if b.get('F', 0) and not b['fmts']:      # functionals need a place, also when no frames are written
        os.makedirs(outdir)
    fmts = b['fmts']
    claw = pyclaw.Controller()
    claw.verbosity = 0
    if b.get('restart', 0):
        # the simulation starts from a frame on disk
        sol.t = b['t0'] / TICK
        sol.write(b['restart'], path=os.path.join(d, 'src'), file_format='ascii', write_aux=True)
        sol2 = pyclaw.Solution(b['restart'], path=os.path.join(d, 'src'), file_format='ascii', read_aux=True,
                               count_from_zero=False)
        sol2.state.problem_data.update(sol.state.problem_data)
        if sol.state.index_capa >= 0:
            sol2.state.index_capa = sol.state.index_capa
        sol2.state.grid.dimensions  # noqa
        sim.sol = sol = sol2
    claw.solution = sol
    claw.solver = s
    claw.outdir = outdir
    claw.keep_copy = bool(b['keep'])
    claw.output_format = None if not fmts else (fmts if len(fmts) > 1 else fmts[0])
    if b.get('prefix'):
        claw.output_file_prefix = b['prefix']
    claw.write_aux_init = bool(b.get('auxinit', 0))
    claw.write_aux_always = bool(b.get('auxalways', 0))
    naux = sol.state.num_aux

    def gval(q, aux):
        v = [2.0 * q[0] + 0.25]
        if aux is not None and len(aux):
            v.append(aux[0] - q[-1])
        return v
    gauges = b.get('gauges', [])
    if gauges:
        coords = [[p[i] * sim.dx[i] / 4.0 for i in range(nd)] for p in gauges]
        sol.state.grid.add_gauges(coords)
        sol.state.keep_gauges = True
        s.compute_gauge_values = gval
    if b.get('p', 0):
        sol.state.mp = 2

        def cp(state):
            state.p[0, ...] = 2 * state.q[0]
            state.p[1, ...] = state.q[0] + 1
        claw.compute_p = cp
    if b.get('F', 0):
        sol.state.mF = 2

        def cF(state):
            state.F[0, ...] = state.q[0]          # of either sign; its absolute values are summed
            state.F[1, ...] = state.q[0] ** 2
        claw.compute_F = cF

    states = []       # every state between accepted steps, over all runs

    def snap():
        states.append(dict(t=sol.t, q=sol.state.q.copy(), aux=None if naux == 0 else sol.state.aux.copy(),
                           n=int(s.status['numsteps'])))
    cnt = [0, 0]
    fresh = [True]

    def hook(solver, state):
        cnt[1] += 1
        if cnt[1] > 5000:
            raise Runaway()
        if fresh[0] or states[-1]['n'] != int(s.status['numsteps']):
            snap()
            fresh[0] = False
        r = spd[cnt[0] % len(spd)]
        cnt[0] += 1
        sim.set_speed(state, r[0], cnt[0] - 1)
    s.before_step = hook
    vals = {}

    def vid(x):
        return vals.setdefault(float(x), len(vals) + 1)

    def match(q, what='q', tol=None):
        m = []
        for j, st in enumerate(states):
            x = st['q'] if what == 'q' else st['aux'] if what == 'aux' else \
                np.array([2 * st['q'][0], st['q'][0] + 1])
            if x is None or q is None or x.shape != q.shape:
                continue
            if (np.array_equal(x, q) if tol is None else np.allclose(x, q, rtol=tol, atol=tol)):
                m.append(j + 1)
        return m
    ev = []
    for run in scn['runs']:
        # times are relative to where the run starts
        shift = ticks(sol.t) - run['at']
        run = dict(run, tfinal=run['tfinal'] + shift, times=[x + shift for x in run['times']])
        claw.output_style = run['style']
        claw.tfinal = run['tfinal'] / TICK
        claw.num_output_times = run['nout']
        claw.out_times = [t / TICK for t in run['times']]
        claw.nstepout = run['nstep']
        claw.overwrite = bool(run['overwrite'])
        existed = int(os.path.exists(outdir))
        before = tree_hash(d)
        t0 = ticks(sol.t)
        q0, tt0 = sol.state.q.copy(), sol.t
        first = len(states) + 1
        fresh[0] = True
        raised, err = 0, ''
        st = {}
        n0 = int(s.status['numsteps'])
        try:
            st = claw.run()
        except Exception as ex:
            import traceback
            raised, err = 1, '%s: %s %s' % (type(ex).__name__, str(ex)[:80], traceback.format_exc()[-300:])
        if not raised:
            if fresh[0] or states[-1]['n'] != int(s.status['numsteps']):
                snap()
        e = dict(e='run', style=run['style'], t0=t0, tfinal=run['tfinal'], nout=run['nout'], times=run['times'],
                 nstep=run['nstep'], overwrite=run['overwrite'], existed=existed, raised=raised, err=err,
                 first=first, last=len(states), status=-1 if not isinstance(st, dict) else int(st.get('numsteps', -1)) - n0,
                 intact=int(tree_hash(d) == before and np.array_equal(q0, sol.state.q) and tt0 == sol.t),
                 st=[ticks(x['t']) for x in states])
        e['mem'] = [dict(t=ticks(f.t), m=match(f.q), am=match(f.state.aux, 'aux') if naux else [],
                         capa=int(f.state.index_capa == sol.state.index_capa),
                         pd=int(f.state.problem_data.keys() == sol.state.problem_data.keys()))
                    for f in claw.frames]
        disk = []
        for fmt in ([f for f in fmts if f != 'vtk'] if not raised else []):
            fl = []
            for num in frames_on_disk(outdir, fmt, b.get('prefix')):
                f = rd(num, fmt, outdir, b.get('prefix'), False)
                am = []
                try:
                    g = rd(num, fmt, outdir, b.get('prefix'), True)
                    if naux and g.state.num_aux == naux and not np.isnan(g.state.aux).all():
                        am = match(g.state.aux, 'aux', 1e-7) or [-1]
                except Exception:
                    am = []
                fl.append(dict(num=num, t=ticks(f.t), m=match(f.q, 'q', 1e-7), am=am))
            disk.append(dict(fmt=fmt, frames=fl))
        e['disk'] = disk
        e['nofiles'] = int(not [f for f in (os.listdir(outdir) if os.path.isdir(outdir) else []) if f not in ('_gauges', 'F.txt')])
        pd = []
        if b.get('p', 0) and not raised:
            for fmt in [f for f in fmts if f != 'vtk']:
                fl = []
                for num in frames_on_disk(os.path.join(outdir, '_p'), fmt, 'claw_p'):
                    f = rd(num, fmt, os.path.join(outdir, '_p'), 'claw_p', False)
                    fl.append(dict(num=num, t=ticks(f.t), m=match(f.q, 'p', 1e-7)))
                pd.append(dict(fmt=fmt, frames=fl))
        e['p'] = pd
        F = []
        if b.get('F', 0) and not raised:
            for ln in open(os.path.join(outdir, 'F.txt')):
                x = [float(v) for v in ln.split()]
                m = []
                for j, z in enumerate(states):
                    ref = [np.sum(np.abs(z['q'][0])) , np.sum(z['q'][0] ** 2)]
                    if np.allclose(x[1:], ref, rtol=1e-9):
                        m.append(j + 1)
                F.append(dict(t=ticks(x[0]), m=m))
        e['F'] = F
        gl = []
        if gauges and not raised:
            shape = sol.state.q.shape[1:]
            e['cells'] = []
            for z in states[first - 1:]:
                row = []
                for ix in np.ndindex(*shape):
                    a = None if naux == 0 else z['aux'][(slice(None),) + ix]
                    row.append([vid(v) for v in gval(z['q'][(slice(None),) + ix], a)])
                e['cells'].append(row)
            gdir = os.path.join(outdir, '_gauges')
            names = list(sol.state.grid.gauge_file_names)
            for k, nm in enumerate(names):
                fn = os.path.join(gdir, nm)
                lines = []
                if os.path.exists(fn):
                    for ln in open(fn):
                        x = [float(v) for v in ln.split()]
                        lines.append(dict(t=ticks(x[0]), v=[vid(v) for v in x[1:]]))
                mem = []
                if k < len(sol.state.gauge_data):
                    for x in np.atleast_2d(sol.state.gauge_data[k]):
                        mem.append(dict(t=ticks(x[0]), v=[vid(v) for v in x[1:]]))
                gl.append(dict(file=lines, mem=mem[-len(lines):] if lines else mem, memlen=len(mem)))
        e['gauges'] = gl
        ev.append(e)
    cfg = dict(b, ncell=[int(n) for n in sol.state.grid.num_cells], naux=naux)
    return dict(cfg=cfg, ev=ev)
