"""Recorder of histories of gauge files (GaugeTrace.tla)."""
import os, random, tempfile, shutil, io, contextlib, warnings
import numpy as np
from clawpack.pyclaw import gauges as G

FMT = {0: None, 2: '%+.5e'}
CLS = [2e-15, 2e-7, 6e-6]


def record(scn):
    rng = random.Random(scn['seed'])
    d = tempfile.mkdtemp(prefix='gauge')
    try:
        return run(scn, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(scn, rng, d):
    ev = []
    table = []                              # value of name v is table[v-1]

    def name(v=None, single=False):
        """a new value and its name (name 0: not a number)"""
        while v is None:
            e = rng.choice([0, 0, 0, 1, 3, -3, 6, -8, 30, -30] if single else [0, 0, 0, 1, 3, -3, 6, -8, 150, -150, 305, -300])
            v = rng.choice([-1, 1]) * rng.randrange(10 ** 5, 10 ** 6) / 1e5 * (1 + rng.random() * 1e-6) * 10.0 ** e
            if rng.random() < 0.05:
                v = 0.0
            if any(abs(v - w) <= 1e-4 * abs(w) for w in table):
                v = None
        table.append(v)
        return len(table)

    def val(n):
        return float('nan') if n == 0 else table[n - 1]

    def find(v, exact=False):
        """name and class of an observed value"""
        v = float(v)
        if v != v:
            return 0, 0
        for n, w in enumerate(table):
            if v == w:
                return n + 1, 0
        if not exact:
            for c, tol in enumerate(CLS):
                for n, w in enumerate(table):
                    if abs(v - w) <= tol * abs(w):
                        return n + 1, c
        return -1, 9

    def series(n, nf, single=False):
        lev = [rng.choice([1, 1, 2, 3, 10, 99]) for _ in range(n)]
        return [dict(lev=lev[r], t=name(single=single), q=[name(single=single) for _ in range(nf)]) for r in range(n)]

    def loc(dim):
        return [name() for _ in range(dim)]

    def look(g):
        try:
            valid = bool(g.is_valid()) and g.q is not None and g.t is not None
        except Exception:
            valid = False
        if not valid:
            return dict(valid=0, id=0, loc=[], gt=0, lev=[], t=[], q=[], tc=0, qc=0, path=[])
        t = [find(x) for x in np.atleast_1d(g.t)]
        q = [[find(x) for x in row] for row in np.atleast_2d(g.q)]
        path = [] if g.particle_path is None else [[find(x)[0] for x in row] for row in np.atleast_2d(g.particle_path)]
        return dict(valid=1, id=int(g.id), loc=[find(x, True)[0] for x in g.location], gt=int(g.gtype == 'lagrangian'),
                    lev=[int(x) if x == int(x) else -1 for x in np.atleast_1d(g.level)], t=[x[0] for x in t], q=[[x[0] for x in row] for row in q],
                    tc=max([x[1] for x in t] + [0]), qc=max([x[1] for row in q for x in row] + [0]), path=path)

    def gid(x):
        return x if scn['idkind'] == 'int' else np.int64(x)

    files = {}                              # what other programs left: id -> file record

    def emit(x, f):
        """write the files of record f for gauge x, as Fortran programs do"""
        base = os.path.join(d, 'gauge%s' % str(x).zfill(5))
        if not f['txt']:
            for s in '.txt', '.bin':
                if os.path.exists(base + s):
                    os.remove(base + s)
            return
        with open(base + '.txt', 'w') as h:
            h.write('# gauge_id= %5i location=( %s ) num_eqn= %2i\n' % (f['hid'], ' '.join(repr(val(n)) for n in f['loc']), f['nf']))
            sty = f['style']
            if f['gt'] == 1:
                h.write(rng.choice(['# Lagrangian particle gauge, q[2,3] replaced by x(t),y(t)\n', '# lagrangian gauge\n']))
            elif sty != 0:
                h.write('# Stationary gauge\n')
            h.write('# level, time, q[%s]\n' % ' '.join(str(m + 1) for m in range(f['nf'])))
            if f['lay'] == 0:
                if sty == 2:
                    h.write('# file format ascii, time series follow in this file\n')
                for r in f['rows']:
                    h.write('%3i %s %s\n' % (r['lev'], '%.16e' % val(r['t']), ' '.join('%.16e' % val(v) for v in r['q'])))
            elif f['lay'] == 2:
                h.write('# file format binary32, time series in .bin file\n')
            elif sty != 0:
                h.write('# file format %s, time series in .bin file\n' % rng.choice(['binary', 'binary64']))
        if f['lay'] and f['bin']:
            w = f['nf0'] + 2
            np.array([v if j % w == 0 else val(v) for j, v in enumerate(f['vals'])],
                     dtype=np.float32 if f['lay'] == 2 else np.float64).tofile(base + '.bin')
        if f['lay'] and not f['bin'] and os.path.exists(base + '.bin'):
            os.remove(base + '.bin')

    def put(x, f):
        files[x] = f
        emit(x, f)
        ev.append(dict(e='put', id=x, f={k: f[k] for k in ('txt', 'hid', 'loc', 'gt', 'lay', 'nf', 'rows', 'bin', 'vals', 'tc', 'qc')}))

    def current(x):
        """the file record of gauge x as the text written by the code implies it, for damage to it"""
        return files.get(x)

    obj = {1: G.GaugeSolution(), 2: G.GaugeSolution()}
    quiet = io.StringIO()
    for o in scn['ops']:
        op, s, x = o['op'], o['s'], o['id']
        with contextlib.redirect_stdout(quiet), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if op == 'make':
                g = G.GaugeSolution()
                rec = dict(id=x, loc=loc(o['dim']), gt=o['gt'], nf=o['nf'], rows=series(o['n'], o['nf']), tc=0, qc=0)
                g.id = gid(x)
                g.location = tuple(val(n) if rng.random() < 0.5 else np.float64(val(n)) for n in rec['loc'])
                g.gtype = 'lagrangian' if o['gt'] else 'stationary'
                g.level = np.array([r['lev'] for r in rec['rows']])
                g.t = np.array([val(r['t']) for r in rec['rows']])
                g.q = np.array([[val(r['q'][m]) for r in rec['rows']] for m in range(o['nf'])])
                obj[s] = g
                ev.append(dict(e='make', s=s, g=rec))
            elif op in ('write', 'refuse'):
                raised = 0
                try:
                    how = rng.choice(['kw', 'pos', 'cwd'])
                    kw = {} if FMT[o['lay']] is None else dict(format=FMT[o['lay']])
                    if how == 'kw':
                        obj[s].write(path=d, **kw)
                    elif how == 'pos':
                        obj[s].write(d, **kw)
                    else:
                        old = os.getcwd(); os.chdir(d)
                        try:
                            obj[s].write(**kw)
                        finally:
                            os.chdir(old)
                except Exception:
                    raised = 1
                ev.append(dict(e='write', s=s, fc=o['lay'], raised=raised))
                files.pop(x, None)
            elif op == 'put':
                rows = series(o['n'], o['nf'], single=o['lay'] == 2)
                flat = [v for r in rows for v in [r['lev'], r['t']] + r['q']]
                old = files.get(x)
                put(x, dict(txt=1, hid=x, loc=loc(o['dim']), gt=o['gt'], lay=o['lay'], nf=o['nf'], nf0=o['nf'], rows=rows if o['lay'] == 0 else [],
                            bin=1 if o['lay'] else 0, vals=flat if o['lay'] else [], tc=0, qc=0, style=rng.choice([0, 1, 2])))
            elif op == 'damage':
                how = o['how']
                f = files.get(x)
                base = os.path.join(d, 'gauge%s' % str(x).zfill(5))
                if how == 'gone':
                    put(x, dict(txt=0, hid=0, loc=[], gt=0, lay=0, nf=0, nf0=0, rows=[], bin=0, vals=[], tc=0, qc=0, style=0))
                elif f is None:
                    # a file the code wrote: edit its text, and say what it now is
                    if not os.path.exists(base + '.txt'):
                        continue
                    lines = open(base + '.txt').read().split('\n')
                    head = lines[0].split()
                    body = [n for n, ln in enumerate(lines) if ln and not ln.startswith('#')]
                    if how == 'id':
                        head[2] = str(int(head[2]) + 1)
                        lines[0] = ' '.join(head)
                    elif how == 'fields':
                        head[-1] = str(int(head[-1]) + 1)
                        lines[0] = ' '.join(head)
                    elif how == 'fewer':
                        head[-1] = str(int(head[-1]) - 1)
                        lines[0] = ' '.join(head)
                    elif how == 'cutrow' and body:
                        lines[body[-1]] = ' '.join(lines[body[-1]].split()[:-1])
                    elif how == 'norows':
                        lines = [ln for n, ln in enumerate(lines) if n not in body]
                    else:
                        continue
                    open(base + '.txt', 'w').write('\n'.join(lines))
                    # whatever it holds, it must be refused: record it as a file with another id, or without data
                    bad = dict(txt=1, hid=x + 1, loc=[], gt=0, lay=0, nf=0, rows=[], bin=0, vals=[], tc=0, qc=0)
                    ev.append(dict(e='put', id=x, f=bad))
                    if how == 'norows' and os.path.exists(base + '.bin'):
                        os.remove(base + '.bin')
                    if how == 'norows':
                        ev[-1]['f'].update(hid=x, lay=1, nf=int(head[-1]))
                else:
                    f = dict(f)
                    if how == 'id':
                        f['hid'] += 1
                    elif how == 'fields':
                        f['nf'] += 1
                        if f['lay'] and len(f['vals']) % (f['nf'] + 2) == 0:
                            continue
                    elif how == 'fewer':
                        f['nf'] -= 1
                        if f['lay'] and len(f['vals']) % (f['nf'] + 2) == 0:
                            continue
                    elif how == 'nobin' and f['lay']:
                        f.update(bin=0, vals=[])
                    elif how == 'cutbin' and f['lay'] and f['vals']:
                        f['vals'] = f['vals'][:-1]
                    elif how == 'cutrow' and f['rows'] and f['rows'][-1]['q']:
                        f['rows'] = f['rows'][:-1] + [dict(f['rows'][-1], q=f['rows'][-1]['q'][:-1])]
                    elif how == 'norows' and f['lay'] == 0:
                        f['rows'] = []
                        if f['style'] != 2 and not f['bin']:
                            f.update(lay=1)     # a header alone: the data may be in a binary file, which is not there
                            b = base + '.bin'
                            if os.path.exists(b):
                                os.remove(b)
                    else:
                        continue
                    put(x, f)
            elif op == 'read':
                raised = 0
                try:
                    if o['how'] == 'new':
                        k = rng.choice(['kw', 'pos', 'cwd'])
                        if k == 'kw':
                            obj[s] = G.GaugeSolution(gauge_id=gid(x), path=d)
                        elif k == 'pos':
                            obj[s] = G.GaugeSolution(gid(x), d)
                        else:
                            old = os.getcwd(); os.chdir(d)
                            try:
                                obj[s] = G.GaugeSolution(gid(x))
                            finally:
                                os.chdir(old)
                    else:
                        obj[s].read(gid(x), d)
                except Exception:
                    raised = 1
                    obj[s] = G.GaugeSolution()
                ev.append(dict(e='read', s=s, id=x, raised=raised, g=look(obj[s])))
            elif op == 'convert':
                y = o['dim']
                gs = [dict(id=z, loc=[0, 0], gt=0, nf=o['nf'], rows=series(o['n'], o['nf']), tc=0, qc=0) for z in (x, y)]
                if rng.random() < 0.2:
                    gs = gs[:1]
                lines = [[(g['id'], r) for r in g['rows']] for g in gs]
                mixed = []
                while any(lines):
                    k = rng.choice([j for j, ln in enumerate(lines) if ln])
                    mixed.append(lines[k].pop(0))
                old = os.path.join(d, 'fort.gauge')
                with open(old, 'w') as h:
                    for z, r in mixed:
                        h.write('%5i %4i %.16e %s\n' % (z, r['lev'], val(r['t']), ' '.join('%.16e' % val(v) for v in r['q'])))
                raised = 0
                try:
                    if rng.random() < 0.5:
                        G.convert_gauges(old, d)
                    else:
                        here = os.getcwd(); os.chdir(d)
                        try:
                            G.convert_gauges(old)
                        finally:
                            os.chdir(here)
                except Exception:
                    raised = 1
                ev.append(dict(e='convert', raised=raised, gs=gs))
                for g in gs:
                    files.pop(g['id'], None)
        if rng.random() < 0.3:
            z = rng.choice([1, 2])
            ev.append(dict(e='look', s=z, g=look(obj[z])))
    return dict(cfg=dict(x=0), ev=ev)
