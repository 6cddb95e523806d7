"""Recorder of simulations that are watched, and of the same ones left alone (ObsTrace.tla)."""
import copy, os, random, shutil, tempfile, io, contextlib
import numpy as np
from clawpack import pyclaw
import simple

T = 3.0 / 64


def record(scn):
    d = tempfile.mkdtemp(prefix='obs')
    here = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            return run(scn, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def run(scn, d):
    names = {}

    def intern(v):
        return names.setdefault(v, len(names) + 1)

    def make():
        rng = random.Random(scn['seed'])
        sol = simple.solution(scn, rng, np.random.RandomState(scn['seed']))
        # of any size: all equations are linear
        q = sol.state.q
        how = rng.randrange(5)
        if how == 1:
            q *= rng.choice([2.0 ** -120, -2.0 ** -130, 2.0 ** 100])
        elif how == 2:
            for k in range(q.size // 3 + 1):
                q.flat[rng.randrange(q.size)] = rng.choice([0.0, -0.0, 1e-40, -1e-33, 5e-324, 1e-12, -3.0, 1e9])
        elif how == 3:
            q -= 1.5
        return sol

    def content(s):
        return simple.content(s, intern)
    nseg = sum(o['op'] == 'seg' for o in scn['ops'])
    # nobody watches
    sol = make()
    nd = sol.domain.num_dim
    sv = simple.solver(scn, sol.state.num_aux)
    ref = [content(sol)]
    for j in range(nseg):
        sv.evolve_to_time(sol, scn['t0'] + T * (j + 1))
        ref.append(content(sol))
    # watched
    sol = make()
    sv = simple.solver(scn, sol.state.num_aux)
    ev = [dict(e='start', c=content(sol))]
    j = fr = 0
    last = None

    def comp_p(state):
        state.p[0, ...] = state.q[0, ...] ** 2

    def comp_F(state):
        state.F[0, ...] = np.abs(state.q[0, ...])
    for o in scn['ops']:
        op = o['op']
        rng = random.Random(o['x'])
        if op == 'seg':
            j += 1
            sv.evolve_to_time(sol, scn['t0'] + T * j)
            ev.append(dict(e='seg', c=content(sol)))
            continue
        raised = 0
        fr += 1
        if op == 'controller':
            ev.append(controller(scn, rng, sol, content, comp_p, comp_F, os.path.join(d, 'c%d' % fr)))
            # the solution itself took no part in it
            ev.append(dict(e='watch', c=content(sol), raised=0))
            continue
        try:
            out = os.path.join(d, 'w%d' % rng.randrange(3))
            if op in ('ascii', 'hdf5', 'vtk', 'aux', 'several'):
                fmt = {'ascii': 'ascii', 'hdf5': 'hdf5', 'vtk': 'vtk' if nd == 2 else 'ascii', 'aux': rng.choice(['ascii', 'hdf5']),
                       'several': ['ascii', 'hdf5'] + (['vtk'] if nd == 2 else [])}[op]
                kw = {}
                if rng.random() < 0.4:
                    kw['file_prefix'] = 'other'
                if fmt == 'hdf5' and rng.random() < 0.5:
                    kw['options'] = dict(compression='gzip')
                sol.write(fr, out, file_format=fmt, write_aux=op == 'aux' or rng.random() < 0.4, **kw)
            elif op == 'p':
                if sol.state.mp == 0:
                    sol.state.mp = 1
                comp_p(sol.state)
                sol.write(fr, out, file_format=rng.choice(['ascii', 'hdf5']), write_p=True, file_prefix='claw_p')
            elif op == 'copy':
                copy.deepcopy(rng.choice([sol, sol.state, sol.domain, sol.state.patch]))
            elif op == 'print':
                str(sol), str(sol.state), str(sol.state.patch), str(sol.domain.grid), str(sv), repr(sv)
                for x in sol.domain.grid.dimensions:
                    str(x)
            elif op == 'coords':
                g = sol.state.grid
                g.c_centers, g.p_centers, g.c_nodes, g.p_nodes, g.delta, g.num_cells
                g.c_centers_with_ghost(rng.randrange(1, 4)), g.p_centers_with_ghost(2), g.c_nodes_with_ghost(1), g.p_nodes_with_ghost(2)
            elif op == 'functional':
                if sol.state.mF == 0:
                    sol.state.mF = 1
                comp_F(sol.state)
                sol.state.sum_F(0)
            elif op == 'gauge':
                g = copy.deepcopy(sol.state.grid)
                g.add_gauges([[x.lower + 0.3 * (x.upper - x.lower) for x in g.dimensions]])
                sol.state.get_q_global(), sol.state.get_aux_global() if sol.state.num_aux else None
            elif op == 'valid':
                sol.is_valid(), sol.state.is_valid(), sv.is_valid()
        except Exception as e:
            raised, last = 1, op + repr(e)[:150]
        ev.append(dict(e='watch', c=content(sol), raised=raised, op=op))
    return dict(cfg=dict(ref=ref, last=str(last)), ev=ev)


def controller(scn, rng, sol, content, comp_p, comp_F, out):
    """the rest of the simulation, from a copy of what it is now, with and without observers"""
    nd = sol.domain.num_dim
    fixed = rng.random() < 0.5
    res = []
    raised = 0
    why = ''
    nout = rng.choice([1, 2, 4])
    for watched in (0, 1):
        s = copy.deepcopy(sol)
        log = []
        sv = simple.solver(scn, s.state.num_aux, log)
        if fixed:
            sv.dt_variable = False
            sv.dt = sv.dt_initial = 2.0 ** -7
        claw = pyclaw.Controller()
        claw.verbosity = 0
        claw.solver, claw.solution = sv, s
        claw.tfinal = s.t + 2.0 ** -4
        claw.num_output_times = nout
        claw.output_format = None
        claw.keep_copy = False
        if watched:
            claw.outdir = out
            claw.output_format = rng.choice([None, 'ascii', 'hdf5', ['ascii', 'hdf5']] + (['vtk', ['vtk', 'ascii']] if nd == 2 else []))
            claw.keep_copy = rng.random() < 0.5
            claw.verbosity = rng.choice([0, 0, 4])
            if s.state.num_aux:
                claw.write_aux_init = rng.random() < 0.5
                claw.write_aux_always = rng.random() < 0.5
            if rng.random() < 0.5 and claw.output_format != 'vtk':
                claw.output_file_prefix = 'foo'
            if fixed:
                # the number of outputs does not matter when the step is fixed (and divides the intervals)
                claw.num_output_times = rng.choice([1, 2, 4, 8])
                if rng.random() < 0.3:
                    claw.output_style = 2
                    claw.out_times = [s.t + k * 2.0 ** -6 for k in (0, 1, 3, 4)]
                elif rng.random() < 0.3:
                    claw.output_style = 3
                    claw.nstepout = 2
                    claw.num_output_times = 4
            if rng.random() < 0.4 and claw.output_format is not None:
                s.state.mp = 1
                claw.compute_p = comp_p
                claw.write_aux_always = claw.write_aux_init = False
            if rng.random() < 0.4 and claw.output_format is not None:
                s.state.mF = 1
                claw.compute_F = comp_F
            if rng.random() < 0.5 and nd < 3:
                s.state.grid.add_gauges([[x.lower + rng.random() * (x.upper - x.lower) for x in s.domain.grid.dimensions] for _ in range(2)])
                s.state.keep_gauges = rng.random() < 0.5
                sv.compute_gauge_values = lambda q, aux: q * 2.0
        try:
            claw.run()
            res.append((content(claw.solution), log))
        except Exception as e:
            raised = 1
            why = repr(e)[:200]
            res.append(([], log))
    steps = [[round(x * 2 ** 40) for x in r[1]] for r in res]
    return dict(e='runs', raised=raised, c=res[1][0], r=res[0][0], steps=names_of(steps[1]), rsteps=names_of(steps[0]), why=why, op='controller')


def names_of(x):
    import hashlib
    return int(hashlib.md5(repr(x).encode()).hexdigest()[:6], 16)
