"""Recorder of histories of a grid's geometry (GeomTrace.tla)."""
import random
import numpy as np
from clawpack import pyclaw

NAMES = 'xyz'


def record(scn):
    c = scn
    rng = random.Random(c['seed'])
    off, sc = c['off'], c['scale']          # extents are (quarters + off) / 4 * scale
    ev = []
    cur = []                                # what has been asked for: [l, u, n] in quarters (with offset)
    one = [1.0 * sc]

    def real(q):
        return q / 4.0 * sc

    def mapping(m):
        def f1(*x):
            return list(x)

        def f2(*x):
            return [(d + 2) * x[d] + one[0] for d in range(len(x))]

        def f3(*x):
            return [x[0] + 2 * x[-1]] + [v for v in x[1:]]

        def f4(*x):
            return [3 * one[0] - v for v in x]
        return [None, f1, f2, f3, f4][m]

    o = c['ops'][0]
    cur.append([o['l'] + off, o['u'] + off, o['n']])
    dims = [pyclaw.Dimension(real(cur[0][0]), real(cur[0][1]), cur[0][2], name='x')]
    if c['how'] == 'grid':
        grid = pyclaw.geometry.Grid(dims)
        patch = state = sol = None
    else:
        if c['how'] == 'ctor':
            dom = pyclaw.Domain([real(cur[0][0])], [real(cur[0][1])], [cur[0][2]])
        elif c['how'] == 'patch':
            dom = pyclaw.Domain([pyclaw.Patch(dims)])
        else:
            dom = pyclaw.Domain(dims)
        patch = dom.patch
        state = pyclaw.State(dom, 1)
        sol = pyclaw.Solution(state, dom)
        grid = patch.grid

    def change(ok, reset=0):
        ev.append(dict(e='change', ok=ok, reset=reset, l=[x[0] for x in cur], u=[x[1] for x in cur], n=[x[2] for x in cur]))
    change(1)

    def W():
        w = 8
        for x in cur:
            w *= x[2]
        return w

    def ticks(a):
        """coordinates in units of scale / W; None when one is off the lattice"""
        v = np.asarray(a, dtype=float) * (W() / sc)
        r = np.rint(v)
        big = max(abs(x[0]) + abs(x[1]) for x in cur)
        if not np.all(np.isfinite(v)) or np.any(np.abs(v - r) > 1e-9 * (W() * big + np.abs(v)) + 1e-9) or np.any(np.abs(r) > 2e9):
            return None
        return r.astype(int)

    def dimension(d):
        """the dimension, by one of the ways to reach it"""
        w = [grid.dimensions[d], getattr(grid, NAMES[d])]
        if sol is not None:
            w += [patch.dimensions[d], getattr(patch, NAMES[d]), sol.domain.patch.dimensions[d], state.grid.dimensions[d], sol.state.patch.dimensions[d]]
        return rng.choice(w)

    def thegrid():
        if sol is None:
            return grid
        return rng.choice([grid, patch.grid, state.grid, sol.grid, sol.domain.grid, sol.state.grid])

    def arr(name, arrays, node, gh, mapped):
        arrays = list(arrays)
        shape = [int(n) for n in np.shape(arrays[0])]
        same = all(np.shape(a) == np.shape(arrays[0]) for a in arrays) and len(arrays) == len(cur)
        val, offt = [], 0
        if not same:
            shape = [-1]
        else:
            idx = [tuple(rng.randrange(n) for n in shape) for _ in range(8)] + [tuple(0 for _ in shape), tuple(n - 1 for n in shape)]
            for ix in idx:
                x = ticks([a[ix] for a in arrays])
                if x is None:
                    offt = 1
                    break
                val.append(dict(ix=[j - gh for j in ix], x=x))
        ev.append(dict(e='arr', name=name, shape=shape, node=node, gh=gh, mapped=mapped, val=val, off=offt))

    def read(what):
        g = thegrid()
        if what in ('cc', 'cn', 'pc', 'pn'):
            node, mapped = int(what[1] == 'n'), int(what[0] == 'p')
            srcs = [g]
            if sol is not None and what in ('cc', 'pc'):
                srcs += [state, sol]
            s = rng.choice(srcs)
            name = {'cc': 'c_centers', 'cn': 'c_nodes', 'pc': 'p_centers', 'pn': 'p_nodes'}[what]
            if node and rng.random() < .3:
                name = name.replace('nodes', 'edges')
                s = rng.choice([g] + ([state, sol] if sol is not None else []))
            arr(name, getattr(s, name), node, 0, mapped)
        elif what in ('ccg', 'cng', 'pcg', 'png'):
            node, mapped, gh = int(what[1] == 'n'), int(what[0] == 'p'), rng.choice([0, 1, 2, 3])
            name = {'ccg': 'c_centers', 'cng': 'c_nodes', 'pcg': 'p_centers', 'png': 'p_nodes'}[what] + '_with_ghost'
            arr(name, getattr(g, name)(gh), node, gh, mapped)
        elif what in ('dc', 'dn', 'dcg', 'dng'):
            d = rng.randrange(len(cur))
            D = dimension(d)
            node = int(what[1] == 'n')
            gh = rng.choice([0, 1, 2, 4]) if what.endswith('g') else 0
            name = 'nodes' if node else 'centers'
            if what.endswith('g'):
                x = getattr(D, name + '_with_ghost')(gh)
            elif rng.random() < .3:
                x = getattr(g, name)[d]
            else:
                x = getattr(D, name)
            x = ticks(x)
            ev.append(dict(e='dim', d=d + 1, node=node, gh=gh, x=[] if x is None else x, off=int(x is None)))
        elif what == 'ext':
            s = rng.choice([g] if sol is None else [g, state, sol])
            if sol is not None and rng.random() < .3:
                l, u, n, dx = patch.lower_global, patch.upper_global, patch.num_cells_global, patch.delta
            else:
                l, u, n, dx = s.lower, s.upper, s.num_cells, s.delta
            t = [ticks(v) for v in (l, u, dx)]
            if any(v is None for v in t):
                ev.append(dict(e='ext', off=1, l=[], u=[], n=[], dx=[]))
            else:
                f = W() // 4
                ev.append(dict(e='ext', off=int(any(v % f for v in t[0]) or any(v % f for v in t[1])), l=t[0] // f, u=t[1] // f, n=[int(v) for v in n], dx=t[2]))
        elif what in ('cell', 'pcell'):
            ix = [rng.randrange(x[2]) for x in cur]
            x = (g.p_center if what == 'pcell' else g.c_center)(rng.choice([list, tuple, np.array])(ix))
            x = np.array(list(x))
            t = ticks(x) if x.shape == (len(cur),) else None
            ev.append(dict(e='cell', ix=ix, mapped=int(what == 'pcell'), x=[] if t is None else t, off=int(t is None)))
        elif what == 'gauge':
            if len(grid.gauges) > 60:
                return
            for _ in range(3):
                at = [rng.randrange(2 * x[0] - 2, 2 * x[1] + 3) for x in cur]
                n0 = len(g.gauges)
                g.add_gauges([[a / 8.0 * sc for a in at]])
                new = g.gauges[n0:]
                # cell widths that are exact binary fractions leave no room for rounding
                ex = all(((x[1] - x[0]) / 4.0 * sc / x[2] * 1024) % 1 == 0 for x in cur) and sc == 1.0
                ev.append(dict(e='gauge', at=at, exact=int(ex), idx=[int(v) for v in new[0]] if new else []))
            # just below the upper end
            n0 = len(g.gauges)
            g.add_gauges([[np.nextafter(real(x[1]), real(x[0])) for x in cur]])
            new = g.gauges[n0:]
            ev.append(dict(e='edge', idx=[int(v) for v in new[0]] if new else [-1] * len(cur)))

    ALL = ['cc', 'cn', 'pc', 'pn', 'ccg', 'cng', 'pcg', 'png', 'dc', 'dn', 'dcg', 'dng', 'ext', 'cell', 'pcell', 'gauge']
    for o in c['ops'][1:]:
        d = o['d'] - 1
        f = {'l': 'lower', 'u': 'upper', 'n': 'num_cells'}.get(o['what'])
        if o['op'] == 'set':
            v = o['m'] + (off if o['what'] in 'lu' else 0)
            cur[d]['lun'.index(o['what'])] = v
            ok = 1
            try:
                setattr(dimension(d), f, real(v) if o['what'] in 'lu' else v)
            except Exception:
                ok = 0
            change(ok)
        elif o['op'] == 'refuse':
            v = o['m'] + (off if o['what'] in 'lu' else 0)
            try:
                setattr(dimension(d), f, real(v) if o['what'] in 'lu' else v)
                ev.append(dict(e='refuse', raised=0))
            except Exception:
                ev.append(dict(e='refuse', raised=1))
            # nor can a dimension be made like that
            a = list(cur[d]); a['lun'.index(o['what'])] = v
            try:
                pyclaw.Dimension(real(a[0]), real(a[1]), a[2], name='z')
                ev.append(dict(e='refuse', raised=0))
            except Exception:
                ev.append(dict(e='refuse', raised=1))
        elif o['op'] == 'add':
            cur.append([o['l'] + off, o['u'] + off, o['n']])
            ok = 1
            try:
                D = pyclaw.Dimension(real(cur[d][0]), real(cur[d][1]), cur[d][2], name=NAMES[d])
                (grid if patch is None else patch).add_dimension(D)
            except Exception:
                ok = 0
            change(ok, 1)
        elif o['op'] == 'map':
            thegrid().mapc2p = mapping(o['m'])
            ev.append(dict(e='map', m=o['m']))
        else:
            read(o['what'])
        for _ in range(c['more']):
            read(rng.choice(ALL))
    return dict(cfg=dict(how=c['how']), ev=ev)
