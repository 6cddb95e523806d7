"""Recorder of frames written to and read from disc (StoreTrace.tla)."""
import copy, hashlib, os, shutil, sys, tempfile
import numpy as np
from clawpack import pyclaw
from clawpack.pyclaw.controller import OutputController

NAMES = ['x', 'y', 'z']


def map_shear(x, y=None, z=None):
    xs = [v for v in (x, y, z) if v is not None]
    return [xs[0] + 0.25 * xs[-1]] + [2.0 * v for v in xs[1:]]


def map_square(x, y=None, z=None):
    xs = [v for v in (x, y, z) if v is not None]
    return [v * v + v for v in xs]


MAPS = [None, map_shear, map_square]


def values(rng, shape, mode):
    v = rng.uniform(-1, 1, shape)
    if mode == 1:                 # all magnitudes
        v *= 10.0 ** rng.randint(-90, 90, shape)
    elif mode == 2:               # few digits
        v = np.round(v * 64) / 8
    elif mode == 3:               # special values
        for _ in range(max(1, v.size // 4)):
            v.flat[rng.randint(v.size)] = rng.choice([0.0, -0.0, np.inf, -np.inf, np.nan, 1e300, -1e-300, 5e-324, 1.0, -1e-100, 1e100])
    elif mode == 4:
        v = v * 1e5
    return v


def build(s):
    rng = np.random.RandomState(s['seed'])
    states = []
    for p in s['patches']:
        dims = [pyclaw.Dimension(p['lo'][d], p['up'][d], p['n'][d], name=NAMES[d]) for d in range(s['nd'])]
        patch = pyclaw.Patch(dims)
        patch.patch_index = p['idx']
        patch.level = p['lev']
        st = pyclaw.State(patch, s['ne'], s['na'])
        st.t = s['t']
        st.q[...] = values(rng, st.q.shape, s['mode'])
        if s['na']:
            st.aux[...] = values(rng, st.aux.shape, s['mode'])
        st.mp = s['mp']
        st.p[...] = values(rng, st.p.shape, s['mode'])
        if s['map']:
            st.grid.mapc2p = MAPS[s['map']]
        st.problem_data.update(s['pd'])
        states.append(st)
    return pyclaw.Solution(states, pyclaw.Domain([x.patch for x in states]))


def snap(sol):
    return [(x.t, np.array(x.q), None if x.aux is None else np.array(x.aux), np.array(x.p), x.patch.patch_index, x.patch.level,
             list(x.patch.num_cells_global), x.patch.lower_global, x.patch.upper_global, dict(x.problem_data or {})) for x in sol.states]


def eqsnap(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        for u, v in zip(x, y):
            if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
                if u is None or v is None or u.shape != v.shape or not np.array_equal(u, v, equal_nan=True):
                    return False
            elif u != v:
                return False
    return True


def close(a, b, prec):
    """agrees to the precision of the format: 'ascii' nine significant digits, 'binary32' single precision, else exactly"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if prec == 'ascii':
        with np.errstate(all='ignore'):
            m = np.where((a == 0) | ~np.isfinite(a), 1.0, np.abs(a))
            tol = 0.50001e-8 * 10.0 ** np.floor(np.log10(m) * (1 + 1e-15) + 1e-12) + 1e-323
            ok = np.where(np.isfinite(a), np.abs(a - b) <= np.where(a == 0, 0, tol), (a == b) | (np.isnan(a) & np.isnan(b)))
        return bool(np.all(ok))
    if prec == 'binary32':
        a = a.astype(np.float32).astype(float)
    return bool(np.array_equal(a, b, equal_nan=True))


def match(sol, s, prec):
    """which aspects of what was read agree with the solution it was written from"""
    r = dict(t=0, g=0, q=0, d=0, a=0, pd=0, mp=0)
    src = s['_sol']
    hp = 'ascii' if prec != 'hdf5' else 'hdf5'          # headers are text for the others
    byidx = dict((int(x.patch.patch_index), x) for x in sol.states)
    if len(byidx) != len(sol.states) or sorted(byidx) != sorted(p['idx'] for p in s['patches']):
        return r
    pairs = [(x, byidx[x.patch.patch_index]) for x in src.states]
    r['t'] = int(all(close(a.t, b.t, hp) for a, b in pairs))
    g = len(sol.domain.patches) == len(sol.states) and set(map(id, sol.domain.patches)) == set(id(x.patch) for x in sol.states)
    for a, b in pairs:
        pa, pb = a.patch, b.patch
        if pa.num_dim != pb.num_dim or int(pa.level) != int(pb.level) or [int(n) for n in pb.num_cells_global] != [int(n) for n in pa.num_cells_global]:
            g = False
            continue
        for d in range(pa.num_dim):
            n = pa.num_cells_global[d]
            lo, up, dx = pa.lower_global[d], pa.upper_global[d], pa.delta[d]
            tol = (0.6e-8 * (10.0 ** np.floor(np.log10(abs(lo) or 1.0) + 1e-12) + n * 10.0 ** np.floor(np.log10(dx) + 1e-12)) if hp == 'ascii' else 0.0) \
                + 4e-16 * (abs(lo) + abs(up))
            if not (close(lo, pb.lower_global[d], hp) and abs(up - pb.upper_global[d]) <= tol and abs(dx - pb.delta[d]) <= tol):
                g = False
    r['g'] = int(bool(g))
    if g:
        r['q'] = int(all(close(a.q, b.q, prec) for a, b in pairs))
        r['d'] = int(all(close(a.p, b.q, prec) for a, b in pairs))
        r['a'] = int(bool(s['na']) and all(b.aux is not None and close(a.aux, b.aux, prec) for a, b in pairs))
        if all(b.problem_data is not None for _, b in pairs):
            r['pd'] = int(all(dict(b.problem_data) == s['pd'] for _, b in pairs))
        f = MAPS[s['map']] or (lambda *x: list(x))
        ok = True
        for a, b in pairs:
            c = b.grid.c_centers
            ok = ok and all(np.allclose(u, v, rtol=1e-12, atol=0) for u, v in zip(b.grid.p_centers, f(*c)))
        r['mp'] = int(ok)
    return r


def put_binary(s, path, pre, fr, fmt, aux, ng):
    """what AMRClaw leaves behind"""
    rng = np.random.RandomState(s['seed'] + 1)
    dt = np.float32 if fmt == 'binary32' else np.float64
    z = str(fr).zfill(4)
    sol = s['_sol']
    with open('%s/%s.t%s' % (path, pre, z), 'w') as f:
        f.write('%26.16e    time\n' % s['t'])
        for v, nm in ((s['ne'], 'meqn'), (len(s['patches']), 'ngrids'), (s['na'], 'naux'), (s['nd'], 'ndim'), (ng, 'nghost')):
            f.write('%6i                 %s\n' % (v, nm))
        if fmt != 'binary' or fr % 2:
            f.write('%10s          format\n' % fmt)
    with open('%s/%s.q%s' % (path, pre, z), 'w') as f, open('%s/%s.b%s' % (path, pre, z), 'wb') as b:
        for st in sol.states:
            p = st.patch
            f.write('%6i                 grid_number\n%6i                 AMR_level\n' % (p.patch_index, p.level))
            for d in p.dimensions:
                f.write('%6i                 m%s\n' % (d.num_cells, d.name))
            for d in p.dimensions:
                f.write('%26.16e    %slow\n' % (d.lower, d.name))
            for d in p.dimensions:
                f.write('%26.16e    d%s\n' % (d.delta, d.name))
            f.write('\n')
            b.write(ghosted(st.q, ng, rng).astype(dt).ravel(order='F').tobytes())
    if aux and s['na']:
        with open('%s/%s.a%s' % (path, pre, z), 'wb') as b:
            for st in sol.states:
                b.write(ghosted(st.aux, ng, rng).astype(dt).ravel(order='F').tobytes())


def ghosted(q, ng, rng):
    if ng == 0:
        return np.array(q)
    r = rng.uniform(5, 6, [q.shape[0]] + [n + 2 * ng for n in q.shape[1:]])
    r[(slice(None),) + tuple(slice(ng, -ng) for _ in q.shape[1:])] = q
    return r


PRE = {'ascii': 'fort', 'binary': 'fort', 'binary32': 'fort', 'binary64': 'fort', 'hdf5': 'claw'}


def prefix(c, o, default_none=False):
    name = c['pres'][o['pre'] - 1]
    if name == '':
        return None if default_none else PRE[o['fmt']]
    return name


def do_write(c, o, d, other=None):
    s = c['sols'][o['s'] - 1]
    fr = c['frames'][o['fr']]
    if o['fmt'].startswith('binary'):
        try:
            put_binary(s, d, prefix(c, o), fr, c['bin'], o['aux'], c['ng'])
        except BaseException as e:
            raise RuntimeError('recorder: %r' % e)
        return 1, 1
    sol = s['_sol']
    before = snap(sol)
    kw = dict(path=d, file_format=o['fmt'], write_aux=bool(o['aux']), write_p=bool(o['der']))
    if prefix(c, o, True) is not None:
        kw['file_prefix'] = prefix(c, o)
    if (o['fmt'] == 'hdf5' or other) and c.get('opts'):
        kw['options'] = dict(c['opts'])
    if other:
        kw['file_format'] = [o['fmt'], other] if c['style'] % 2 else [other, o['fmt']]
    ok = 1
    try:
        sol.write(fr, **kw)
    except Exception:
        ok = 0
    return ok, int(eqsnap(before, snap(sol)))


def do_read(c, o, d, style=0, into=None):
    fr = c['frames'][o['fr']]
    fmt = c['bin'] if o['fmt'] == 'binary' else o['fmt']
    kw = dict(path=d, read_aux=bool(o['aux']))
    if o['fmt'] == 'hdf5' or style % 2 == 0 or (fmt == 'binary'):
        kw['file_format'] = fmt if fmt != 'hdf5' or style % 3 else 'hdf'
    if prefix(c, o, True) is not None:
        kw['file_prefix'] = prefix(c, o)
    if into is not None:
        into.read(fr, **kw)
        return into
    if style % 5 == 1:
        return pyclaw.Solution(frame=fr, **kw)
    if style % 5 == 2:
        sol = pyclaw.Solution()
        sol.read(fr, **kw)
        return sol
    return pyclaw.Solution(fr, **kw)


def describe(c, sol, fmt):
    prec = 'ascii' if fmt == 'ascii' else 'hdf5' if fmt == 'hdf5' else c['bin']
    m = [match(sol, s, prec) for s in c['sols']]
    e = dict((k, [j + 1 for j in range(len(m)) if m[j][k]]) for k in ('t', 'g', 'q', 'd', 'a', 'pd', 'mp'))
    e['na'] = sol.states[0].num_aux
    e['nan'] = int(all(x.aux is None or bool(np.all(np.isnan(x.aux))) for x in sol.states))
    return e


NOREAD = dict(t=[], g=[], q=[], d=[], a=[], pd=[], mp=[], na=-1, nan=0)


def history(c, d):
    ev = []
    for j, o in enumerate(c['ops']):
        base = dict(fmt=o['fmt'], pre=o['pre'], fr=o['fr'])
        if o['op'] == 'write':
            other = {'ascii': 'hdf5'}.get(o['fmt']) if (c['style'] + j) % 3 == 0 else None
            ok, same = do_write(c, o, d, other)
            ev.append(dict(base, e='write', s=o['s'], aux=o['aux'], der=o['der'], ok=ok, same=same))
            if other:           # the same frame in two formats at once
                ev.append(dict(base, e='write', fmt=other, s=o['s'], aux=o['aux'], der=o['der'], ok=ok, same=same))
        elif o['op'] == 'read':
            into = build(c['sols'][o['into'] - 1]) if o['into'] else None
            try:
                sol = do_read(c, o, d, c['style'] + j, into)
                ev.append(dict(base, e='read', aux=o['aux'], ok=1, **describe(c, sol, o['fmt'])))
            except Exception as x:
                ev.append(dict(base, e='read', aux=o['aux'], ok=0, log=repr(x)[:150], **NOREAD))
            if o['fmt'] != 'hdf5':      # the time alone
                fmt = c['bin'] if o['fmt'] == 'binary' else o['fmt']
                try:
                    t = OutputController(d, fmt, prefix(c, o)).get_time(c['frames'][o['fr']])
                    ts = [k + 1 for k, s in enumerate(c['sols']) if close(s['_sol'].states[0].t, t, 'ascii')]
                    ev.append(dict(base, e='time', ok=1, t=ts))
                except Exception as x:
                    ev.append(dict(base, e='time', ok=0, t=[], log=repr(x)[:150]))
        else:
            z = str(c['frames'][o['fr']]).zfill(4)
            pre = prefix(c, o)
            parts = ['%s%s.hdf' % (pre, z)] if o['fmt'] == 'hdf5' else \
                    ['%s.%s%s' % (pre, x, z) for x in {'ascii': 'tq', 'binary': 'tb'}[o['fmt']]]
            if o['s'] < 2 and len(parts) > 1:
                parts = [parts[o['s']]]
            for x in parts:
                if os.path.exists(os.path.join(d, x)):
                    os.remove(os.path.join(d, x))
            ev.append(dict(base, e='rm'))
    return ev


# ---------------------------------------------------------------- damage
class Opened:
    """the order in which files under a directory are opened for writing"""
    hooked = False
    now = None

    def __init__(self, d):
        self.d, self.seen = os.path.realpath(d), []

    def __enter__(self):
        if not Opened.hooked:
            sys.addaudithook(Opened.hook)
            Opened.hooked = True
        Opened.now = self
        return self

    def __exit__(self, *a):
        Opened.now = None

    @staticmethod
    def hook(name, args):
        o = Opened.now
        if o is not None and name == 'open' and isinstance(args[0], str) and isinstance(args[1], str) and args[1][:1] in ('w', 'a', 'x'):
            p = os.path.realpath(args[0])
            if p.startswith(o.d) and p not in o.seen:
                o.seen.append(p)


def boundaries(data, name, c, o):
    """positions at which the file can end between two values or lines"""
    kind = os.path.basename(name)
    ext = kind.rsplit('.', 1)[1]
    text = not (ext == 'hdf' or ext[0] == 'b' or ext.startswith('pkl') or (o['fmt'].startswith('binary') and ext[0] == 'a'))
    if text:
        pos, inside = {0}, False
        for j, ch in enumerate(data):
            ws = ch in b' \n'
            if inside and ws:
                pos.add(j)          # a value has just ended
            if ch == 10:
                pos.add(j + 1)
            inside = not ws
        return sorted(p for p in pos if p < len(data))
    if ext == 'hdf' or ext.startswith('pkl'):
        return list(range(0, len(data), max(1, len(data) // 40)))
    return list(range(0, len(data), 4 if c['bin'] == 'binary32' else 8))


def outcome(c, o, d):
    try:
        sol = do_read(c, o, d, 0)
    except Exception:
        return 'raised'
    m = describe(c, sol, o['fmt'])
    if not (1 in m['t'] and 1 in m['g'] and (1 in m['d'] if o['der'] else 1 in m['q'])):
        return 'diff'
    if c['sols'][0]['na'] == 0 or not o['aux'] or 1 in m['a']:
        return 'same'
    return 'noaux' if m['nan'] else 'diff'


def damage(c, d):
    """one frame written; then every file of it cut everywhere, and all states an interrupted write leaves"""
    o = c['op']
    ev = []
    with Opened(d) as w:
        ok, same = do_write(c, o, d)
    ev.append(dict(e='write', fmt=o['fmt'], pre=1, fr=0, s=1, aux=o['aux'], der=o['der'], ok=ok, same=same))
    if not ok:
        return ev
    files = sorted(os.path.realpath(os.path.join(d, x)) for x in os.listdir(d))
    order = [x for x in w.seen if x in files]
    data = dict((x, open(x, 'rb').read()) for x in files)
    ev.append(dict(e='whole', out=outcome(c, o, d)))
    rng = np.random.RandomState(c['seed'])
    lim = c['limit']

    def some(b):
        if len(b) <= lim:
            return b
        keep = set(b[:8]) | set(b[-12:]) | set(b[j] for j in rng.permutation(len(b))[:lim])
        return [x for x in b if x in keep]

    def isaux(x):
        return os.path.basename(x).rsplit('.', 1)[1][0] == 'a'
    for x in files:
        for p in some(boundaries(data[x], x, c, o)):
            with open(x, 'wb') as f:
                f.write(data[x][:p])
            ev.append(dict(e='cut', file=os.path.basename(x), at=p, gone=0, out=outcome(c, o, d)))
        os.remove(x)
        # without the file of parameters and mapping, or the auxiliary file, the rest is still there
        ev.append(dict(e='cut', file=os.path.basename(x), at=-1, gone=int(isaux(x)), out=outcome(c, o, d)))
        with open(x, 'wb') as f:
            f.write(data[x])
    if len(order) == len(files):
        for j, x in enumerate(order):
            for y in order[j + 1:]:
                if os.path.exists(y):
                    os.remove(y)
            auxgone = int(any(isaux(y) for y in order[j + 1:]))
            for p in some(boundaries(data[x], x, c, o)) + [len(data[x])]:
                with open(x, 'wb') as f:
                    f.write(data[x][:p])
                ev.append(dict(e='crashed', file=os.path.basename(x), at=p, gone=auxgone, out=outcome(c, o, d)))
            for y in order:
                with open(y, 'wb') as f:
                    f.write(data[y])
    # parts of a patch missing from an HDF5 file
    if o['fmt'] == 'hdf5':
        import h5py
        main = [x for x in files if x.endswith('.hdf')][0]
        with h5py.File(main, 'r') as f:
            groups = list(f)
            dims = {g: [str(n) for n in np.array(f[g].attrs['dimensions']).astype(str)] for g in groups}
        for g in groups:
            for what in ['q', 't', 'num_eqn'] + [n + '.' + a for n in dims[g][-1:] for a in ('lower', 'upper', 'num_cells')]:
                with h5py.File(main, 'r+') as f:
                    if what == 'q':
                        del f[g]['q']
                    else:
                        del f[g].attrs[what]
                ev.append(dict(e='tamper', what=what, patch=groups.index(g), out=outcome(c, o, d)))
                with open(main, 'wb') as f:
                    f.write(data[main])
    # auxiliary headers that do not belong to the data
    if o['fmt'] == 'ascii' and o['aux'] and c['sols'][0]['na']:
        s = c['sols'][0]
        aux = [x for x in files if isaux(x)][0]
        for ip in range(len(s['patches'])):
            for what in ['level'] + ['n%d' % k for k in range(s['nd'])] + ['lower%d' % k for k in range(s['nd'])] + ['delta%d' % k for k in range(s['nd'])]:
              for sign, much in ((1, 1), (-1, 1), (1, 0), (-1, 0)):
                if tamper(data[aux], s, ip, what, aux, sign, much):
                    ev.append(dict(e='tamper', what=what, patch=ip, out=outcome(c, o, d)))
        with open(aux, 'wb') as f:
            f.write(data[aux])
    return ev


def tamper(data, s, ip, what, path, sign, much):
    lines = data.decode().split('\n')
    heads = [j for j, l in enumerate(lines) if 'patch_number' in l]
    if len(heads) != len(s['patches']):
        return False
    h = heads[ip]
    nd = s['nd']
    if what == 'level':
        j, f = h + 1, lambda v: '%d' % (int(v) + sign * (1 + much))
    elif what[0] == 'n':
        j, f = h + 2 + int(what[1:]), lambda v: '%d' % (int(v) + sign * (1 + much))
    elif what.startswith('lower'):
        j, f = h + 2 + nd + int(what[5:]), lambda v: '%.8e' % (float(v) + sign * (0.5 if much else 1e-3))
    else:
        j, f = h + 2 + 2 * nd + int(what[5:]), lambda v: '%.8e' % (float(v) * (1 + sign * (.5 if much else 1e-2)))
    w = lines[j].split()
    if what[0] == 'n' and int(f(w[0])) < 1:
        return False
    lines[j] = f(w[0]) + '   ' + ' '.join(w[1:])
    if what[0] == 'n' and what[1:].isdigit():
        # enough values for the larger number of cells, so that only the header is wrong
        lines += ['  '.join(['0.5'] * s['na'])] * 4000 if ip == len(s['patches']) - 1 else []
    with open(path, 'w') as f:
        f.write('\n'.join(lines))
    return True


def record(scn):
    c = scn
    d = tempfile.mkdtemp(prefix='store_')
    try:
        for s in c['sols']:
            s['_sol'] = build(s)
        ev = history(c, d) if c['kind'] == 'hist' else damage(c, d)
    finally:
        for s in c['sols']:
            s.pop('_sol', None)
        shutil.rmtree(d, ignore_errors=True)
    geo = []
    for s in c['sols']:
        g = [s['patches'], s['nd']]
        geo.append(1 + [[x['patches'], x['nd']] for x in c['sols']].index(g))
    return dict(cfg=dict(kind=c['kind'], na=[s['na'] for s in c['sols']], geo=geo), ev=ev)
