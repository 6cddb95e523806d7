"""Recorder of attempts to run configurations with mistakes (ConfigTrace.tla)."""
import contextlib, io, os, random, shutil, tempfile
import numpy as np
from clawpack import pyclaw, riemann

KIND = dict(c1=('advection_1D', 1, 1, 0, dict(u=0.5)), v1=('acoustics_variable_1D', 2, 2, 2, {}), p1=('advection_1D', 1, 1, 0, dict(u=0.5)),
            s1=('advection_1D', 1, 1, 0, dict(u=0.5)), t1=('advection_1D', 1, 1, 0, dict(u=0.5)),
            c2=('acoustics_2D', 3, 2, 0, dict(rho=1.0, bulk=4.0, cc=2.0, zz=2.0)), v2=('vc_advection_2D', 1, 1, 2, {}),
            s2=('acoustics_2D', 3, 2, 0, dict(rho=1.0, bulk=4.0, cc=2.0, zz=2.0)), v3=('vc_acoustics_3D', 4, 2, 2, {}))


def mapped(*x):
    return [v + 0.1 * v * v for v in x]


def record(scn):
    d = tempfile.mkdtemp(prefix='cfg')
    here = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            return run(scn, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            out[os.path.join(r, f)] = open(os.path.join(r, f), 'rb').read()
    return out


def build(scn, bad, rng):
    """solution, solver, controller settings; drawn in the same way whatever the mistakes are"""
    fam = scn['fam']
    name, ne, nw, need, data = KIND[fam]
    nd = int(fam[1])
    sharp, python = fam[0] in 'st', fam in ('p1', 't1')
    naux = need + (rng.randrange(1, 3) if scn['aux'] else 0)
    n = [rng.randrange(5, 9) for _ in range(nd)] if nd < 3 else [5, 4, 6]
    dom = pyclaw.Domain([0.0] * nd, [1.0] * nd, n)
    st = pyclaw.State(dom, ne, naux) if naux else pyclaw.State(dom, ne)
    npr = np.random.RandomState(scn['seed'])
    st.q[...] = 1.0 + npr.rand(*st.q.shape)
    if naux:
        st.aux[...] = 0.5 + 0.5 * npr.rand(*st.aux.shape)
    st.problem_data.update(data)
    ismap, capa = rng.random() < 0.5, rng.random() < 0.5
    if 'mapnoaux' in bad:
        st.grid.mapc2p = mapped
    elif naux and (ismap or 'nocapa' in bad or 'capaout' in bad):
        st.grid.mapc2p = mapped
        st.index_capa = naux - 1
    elif naux and capa:
        st.index_capa = naux - 1
    if 'nocapa' in bad:
        st.index_capa = -1
    if 'capaout' in bad:
        st.index_capa = naux + rng.randrange(2)
    if 'noparam' in bad:
        st.problem_data.pop(rng.choice(sorted(data)))
    sol = pyclaw.Solution(st, dom)
    sol.t = t0 = rng.choice([0.0, 1.5])
    # the solver
    if python:
        from clawpack.riemann import advection_1D_py
        sv = (pyclaw.SharpClawSolver1D if sharp else pyclaw.ClawSolver1D)(advection_1D_py.advection_1D)
        sv.kernel_language, sv.fwave = 'Python', False
    else:
        cls = getattr(pyclaw, ('SharpClawSolver%dD' if sharp else 'ClawSolver%dD') % nd)
        sv = cls(getattr(riemann, name))
    if fam == 'v3':
        sv.num_eqn, sv.num_waves = 4, 2
    if nd > 1 and not sharp:
        sv.dimensional_split = rng.choice([1, 1, 0]) if fam == 'c2' else 1
    bcs = [pyclaw.BC.extrap, pyclaw.BC.periodic, pyclaw.BC.wall, pyclaw.BC.custom]

    def bcfun(state, dim, t, qbc, auxbc, num_ghost):
        pass

    def auxfun(state, dim, t, qbc, auxbc, num_ghost):
        pass
    for side in ('lower', 'upper'):
        for k in range(nd):
            b = rng.choice(bcs[:2] + ([bcs[2]] if fam in ('c2', 's2', 'v3', 'v1') else []) + [bcs[3]])
            getattr(sv, 'bc_' + side)[k] = b
            if naux:
                getattr(sv, 'aux_bc_' + side)[k] = rng.choice(bcs[:3])
    for k in range(nd):
        if pyclaw.BC.periodic in (sv.bc_lower[k], sv.bc_upper[k]):
            sv.bc_lower[k] = sv.bc_upper[k] = pyclaw.BC.periodic
        if naux and pyclaw.BC.periodic in (sv.aux_bc_lower[k], sv.aux_bc_upper[k]):
            sv.aux_bc_lower[k] = sv.aux_bc_upper[k] = pyclaw.BC.periodic
    for side in ('lower', 'upper'):
        k = rng.randrange(nd)
        if 'nobc' + side in bad:
            getattr(sv, 'bc_' + side)[k] = None
        if 'nocustom' + side in bad:
            getattr(sv, 'bc_' + side)[k] = pyclaw.BC.custom
        elif pyclaw.BC.custom in getattr(sv, 'bc_' + side) or ('nobc' + side not in bad and rng.random() < 0.5):
            setattr(sv, 'user_bc_' + side, bcfun)
    if 'noauxbc' in bad:
        rng.choice([sv.aux_bc_lower, sv.aux_bc_upper])[rng.randrange(nd)] = None
    nlim = ne if sharp else nw
    lim = rng.choice([4, 1, [4], [2] * nlim])
    if sharp:
        sv.lim_type = 2 if python else rng.choice([1, 2, 2])
        sv.time_integrator = rng.choice(['SSP104', 'SSP104', 'SSPLMMk2'] if not python else ['SSP104'])
    sv.limiters = lim if 'limiters' not in bad else [4] * (nlim + rng.choice([1, 2]))
    sv.dt_variable = rng.random() < 0.7 or 'lmmvar' in bad or 'cfl' in bad
    if sharp and sv.time_integrator.startswith('SSPLMM'):
        sv.dt_variable = True
    cflset = rng.random() < 0.5
    if cflset:
        sv.cfl_max, sv.cfl_desired = (0.9, 0.8) if not sharp else (2.0, 1.9)
        if sharp and sv.time_integrator != 'SSP104':
            sv.cfl_max, sv.cfl_desired = 0.2, 0.15
    if 'cfl' in bad:
        sv.cfl_max = 0.5
        sv.cfl_desired = 0.6
    sv.dt = sv.dt_initial = 2.0 ** -7
    if 'noeqn' in bad:
        sv.num_eqn = None
    if 'nowaves' in bad:
        sv.num_waves = None
    if 'nofwave' in bad:
        sv.fwave = None
    if 'integrator' in bad:
        sv.time_integrator = rng.choice(['SSP99', 'Heun', 'euler'])
        if rng.random() < 0.5:
            sv.cfl_max, sv.cfl_desired = 0.5, 0.4
        if 'cfl' in bad:
            sv.cfl_max, sv.cfl_desired = 0.5, 0.6
    if 'lmmvar' in bad:
        sv.time_integrator = 'LMM'
        sv.cfl_max, sv.cfl_desired = 0.5, 0.4
    if 'kernel' in bad:
        sv.kernel_language = rng.choice(['C', 'fortran', 'python', None])
    if 'kernelmulti' in bad:
        sv.kernel_language = 'Python'
    if 'order' in bad:
        sv.weno_order = rng.choice([7, 9])
        sv.lim_type = 2
    if rng.random() < 0.6:
        if sharp:
            def dq(solver, state, dt):
                return 0.01 * dt * state.q
            sv.dq_src = dq
        else:
            def src(solver, state, dt):
                state.q *= 1.0 + 0.01 * dt
            sv.step_source = src
            sv.source_split = rng.choice([1, 2])
    ctl = dict(output_style=rng.choice([1, 1, 2, 3]), output_format=rng.choice([None, 'ascii', 'hdf5', ['ascii', 'hdf5']]), keep_copy=rng.random() < 0.5,
               gauges=nd < 3 and rng.random() < 0.5, before=rng.random() < 0.5)
    if 'style' in bad:
        ctl['output_style'] = rng.choice([0, 4, 17])
    if 'format' in bad:
        ctl['output_format'] = rng.choice(['netcdf5', 'text', 'asci'])
    if 'formats' in bad:
        ctl['output_format'] = rng.choice([['ascii', 'nothing'], ['hdf5', 'vtkk']])
    if 'exists' in bad:
        ctl['before'] = True
        if ctl['output_format'] is None:
            ctl['output_format'] = 'ascii'
    return sol, sv, ctl, t0 + 2.0 ** -5


def attempt(scn, sol, sv, ctl, tf, out, bad=()):
    try:
        if scn['route'] == 'evolve':
            sv.evolve_to_time(sol, tf)
        else:
            claw = pyclaw.Controller()
            claw.verbosity = 0
            claw.solver = None if 'nosolver' in bad else object() if 'wrongsolver' in bad else sv
            claw.solution = None if 'nosolution' in bad else sol
            claw.tfinal = tf
            claw.output_style = ctl['output_style']
            claw.num_output_times = 2
            claw.out_times = [sol.t, (sol.t + tf) / 2, tf]
            claw.nstepout = 2
            claw.output_format = ctl['output_format']
            claw.keep_copy = ctl['keep_copy']
            claw.outdir = out
            if 'exists' in bad:
                claw.overwrite = False
            if ctl['gauges']:
                sol.state.grid.add_gauges([[0.3] * sol.state.num_dim, [0.9] * sol.state.num_dim])
            claw.run()
        return None
    except Exception as e:
        return e


def run(scn, d):
    ev = []
    bad = scn['bad']
    why = None

    def snap(sol):
        s = sol.state
        return (s.q.tobytes(), s.q.shape, None if s.aux is None else s.aux.tobytes(), s.index_capa), tuple(x.t for x in sol.states)

    def leftovers(out, ctl):
        """an earlier run's files"""
        if ctl['before']:
            os.makedirs(out, exist_ok=True)
            for f in ('fort.q0000', 'fort.t0000', 'fort.q0001', 'claw0000.hdf', 'F.txt', 'gauge0.3.txt', 'gauge0.3_0.3.txt', 'fort.b0000'):
                open(os.path.join(out, f), 'w').write('precious ' + f)
            os.makedirs(os.path.join(out, '_gauges'), exist_ok=True)
            for f in ('gauge0.3.txt', 'gauge0.3_0.3.txt', 'gauge0.9.txt', 'gauge0.9_0.9.txt'):
                open(os.path.join(out, '_gauges', f), 'w').write('precious ' + f)
    # the same without mistakes
    sol, sv, ctl, tf = build(scn, [], random.Random(scn['seed']))
    out = os.path.join(d, 'good')
    leftovers(out, ctl)
    e = attempt(scn, sol, sv, ctl, tf, out)
    end = abs(sol.t - tf) < 1e-9 or (scn['route'] == 'run' and ctl['output_style'] == 3)
    ev.append(dict(e='good', raised=int(e is not None), end=int(end)))
    if e is not None:
        why = repr(e)[:200]
    ref = snap(sol) if e is None else None
    if bad:
        sol, sv, ctl, tf = build(scn, bad, random.Random(scn['seed']))
        out = os.path.join(d, 'bad')
        leftovers(out, ctl)
        b, f = snap(sol), files(d)
        e = attempt(scn, sol, sv, ctl, tf, out, bad)
        a = snap(sol)
        ev.append(dict(e='bad', bad=bad, raised=int(e is not None), data=int(a[0] == b[0]), time=int(a[1] == b[1]), files=int(files(d) == f), why=repr(e)[:100]))
        if not set(bad) & {'noparam', 'nocapa', 'capaout', 'mapnoaux'} and ctl['output_style'] in (1, 2, 3) and ref is not None:
            # a new solver without the mistakes
            _, sv, ctl, tf = build(scn, [], random.Random(scn['seed']))
            # (the mapping may have been chosen because of the mistake)
            sol.state.grid.gauges[:] = []
            sol.state.grid.gauge_file_names[:] = []
            e = attempt(scn, sol, sv, ctl, tf, os.path.join(d, 'again'))
            ev.append(dict(e='again', raised=int(e is not None), same=int(snap(sol) == ref)))
            if e is not None:
                why = repr(e)[:200]
    rng = random.Random(scn['seed'])
    for word, e in ((rng.choice(['cfl', 'dtmax', 'limiter', 'bc', 'max_step', 'orders', 'Kernel', 'numwaves']) + 'z', 'option'),
                    (rng.choice(['cfl_max', 'dt_max', 'limiters', 'max_steps', 'num_waves', 'before_step', 'kernel_language']), 'known')):
        try:
            setattr(sv, word, getattr(sv, word, 1))
            raised = 0
        except Exception:
            raised = 1
        ev.append(dict(e=e, raised=raised))
    return dict(cfg=dict(fam=scn['fam'], route=scn['route'], aux=scn['aux'], why=str(why)), ev=ev)
