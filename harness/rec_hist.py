"""Recorder of several simulations in one process against each of them alone in a fresh process (HistTrace.tla).
Every history runs in a forked child of a process that has imported the library but never run anything."""
import ctypes, hashlib, json, os, sys, tempfile, shutil, signal
import numpy as np
from clawpack import pyclaw, riemann
import rec_cons


def perturb(v):
    """fill memory handed out by malloc with a pattern, so that results depending on it show"""
    try:
        ctypes.CDLL('libc.so.6').mallopt(-6, v)
    except Exception:
        pass


LIMS = {}                      # lists a user may hand to several solvers


def start(c):
    rng = np.random.RandomState(c['seed'])
    sv, sol, kap, err = rec_cons.setup(c, rng)
    sol.state.problem_data.update(c.get('data') or {})
    nw = sv.num_waves
    sv.dt_variable = True
    if c['fam'] == 'sharp':
        sv.cfl_max, sv.cfl_desired = 0.2, 0.15
        if c['integ'] == 'SSP104':
            sv.cfl_max, sv.cfl_desired = 0.8, 0.7
    else:
        sv.cfl_max, sv.cfl_desired = (0.5, 0.4) if c['nd'] > 1 else (1.0, 0.9)
    if c.get('src'):
        a = 0.01 * c['src']
        if c['fam'] == 'classic':
            def src(solver, state, dt):
                state.q *= (1.0 + a * dt)
            sv.step_source = src
            sv.source_split = 1 + c['src'] % 2
        else:
            def dsrc(solver, state, dt):
                return a * dt * state.q
            sv.dq_src = dsrc
    if c.get('bc'):
        for d in range(c['nd']):
            sv.bc_lower[d] = sv.bc_upper[d] = pyclaw.BC.extrap
    if c.get('lim1'):
        sv.limiters = LIMS.setdefault(c['lim1'], [c['lim1']])
    if c.get('gauge'):
        g = sol.state.grid
        g.add_gauges([[d.lower + c['gauge'] * (d.upper - d.lower) for d in g.dimensions]])
        sol.state.keep_gauges = True
        if not c.get('ctrl'):
            g.setup_gauge_files(tempfile.mkdtemp(dir='.'))
    T = 4.0 * sv.dt
    run = dict(sv=sv, sol=sol, T=T, c=c, err=err, k=0)
    if c.get('ctrl'):
        claw = pyclaw.Controller()
        claw.verbosity = 0
        claw.solver, claw.solution = sv, sol
        claw.tfinal = T / 3
        claw.num_output_times = 1
        claw.keep_copy = True
        claw.output_format = c['ctrl'] if c['ctrl'] != 'none' else None
        claw.outdir = tempfile.mkdtemp(dir='.')
        run['claw'] = claw
    return run


def seg(run):
    run['k'] += 1
    t = run['T'] * run['k'] / 3.0
    if 'claw' in run:
        run['claw'].tfinal = t
        run['claw'].run()
        run['sol'] = run['claw'].solution
    else:
        run['sol'].state   # (the solution is evolved in place)
        run['sv'].evolve_to_time(run['sol'], t)


def result(run):
    s = run['sol'].state
    h = hashlib.sha256()
    h.update(np.ascontiguousarray(s.q).tobytes())
    if s.num_aux:
        h.update(np.ascontiguousarray(s.aux).tobytes())
    h.update(repr((s.t, run['sv'].status['numsteps'], float(run['sv'].status['cflmax']))).encode())
    if run['c'].get('gauge'):
        h.update(repr((len(s.gauge_data), len(s.grid.gauges))).encode())
        for g in s.gauge_data:
            h.update(np.ascontiguousarray(g).tobytes())
    if not np.all(np.isfinite(s.q)):
        h.update(os.urandom(8))        # not a result at all
    if run['err']:
        raise RuntimeError(run['err'][0])
    return h.hexdigest()[:16]


def in_child(fn, arg, limit=400):
    """run fn(arg, emit) in a forked child; returns what it emitted and whether it ended well"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        d = tempfile.mkdtemp(dir='.')
        try:
            os.close(r)
            os.chdir(d)
            signal.alarm(limit)
            f = os.fdopen(w, 'w')

            def emit(x):
                f.write(json.dumps(x) + '\n')
                f.flush()
            try:
                fn(arg, emit)
                code = 0
            except BaseException as e:
                emit(dict(e='exc', log=repr(e)[:200]))
        finally:
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
            os._exit(code)
    os.close(w)
    out = [json.loads(x) for x in os.fdopen(r).read().splitlines()]
    _, stt = os.waitpid(pid, 0)
    return out, stt == 0


def alone(c, emit):
    run = start(c)
    for _ in range(3):
        seg(run)
    emit(dict(res=result(run)))


def history(scn, emit):
    perturb(scn['perturb'])
    runs = {}
    over = []
    for j, o in enumerate(scn['ops']):
        # finished simulations are dropped at some later moment, perhaps in the middle of another one
        while over and j in scn['drop']:
            del runs[over.pop(0)]
        if o['op'] == 'start':
            runs[o['i']] = start(scn['sims'][str(o['s'])])
            emit(dict(e='start', i=o['i'], s=o['s']))
        elif o['op'] == 'seg':
            seg(runs[o['i']])
            emit(dict(e='seg', i=o['i'], s=o['s']))
        else:
            emit(dict(e='finish', i=o['i'], s=o['s'], res=result(runs[o['i']])))
            over.append(o['i'])


_fresh = {}


def record(scn):
    ev = []
    for s in sorted({o['s'] for o in scn['ops']}):
        c = scn['sims'][str(s)]
        key = json.dumps(c, sort_keys=True)
        if key not in _fresh:
            _fresh[key] = in_child(alone, c)
        out, ok = _fresh[key]
        ev.append(dict(e='fresh', s=s, ok=int(ok), res=out[-1].get('res', 'none') if out else 'none', log=out[-1].get('log', '') if out else ''))
    out, ok = in_child(history, scn)
    ev += [x for x in out if x['e'] != 'exc']
    if not ok:
        ev.append(dict(e='died', log=str(out[-1:])[:300]))
    return dict(cfg=dict(n=len(scn['ops'])), ev=ev)
