"""C26: sessions of Plotting.tla with real figures; what vedo would put on the screen is compared with what has to be visible."""
import numpy as np
import core
from props.meshes import build

INV = ['Conserved', 'InTime', 'Ordered', 'UniqueIds']
GREY = '#CCCCCC'


class Plotter:
    """Stands in for the window."""
    made = []

    def __init__(self, *a, **k):
        self.objects, self.shows = [], 0
        Plotter.made.append(self)

    def add(self, *obj, **k):
        for o in obj:
            self.add(*o) if isinstance(o, (list, tuple)) else self.objects.append(o)
        return self

    def __iadd__(self, obj):
        return self.add(obj)

    def show(self, *obj, **k):
        self.add(*obj)
        self.shows += 1
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: self


def rgb(vedo, c):
    return np.array(vedo.get_color(c), dtype=float)


def colours(obj, n):
    """The colour of every cell as the mapper draws it (vertex colours: those of the vertices averaged)."""
    from vtkmodules.util.numpy_support import vtk_to_numpy
    base = np.array(obj.properties.GetColor())
    m = obj.mapper
    if m.GetScalarVisibility():
        m.InterpolateScalarsBeforeMappingOff()
        arr = m.MapScalars(1.)
        if arr is not None:
            a = vtk_to_numpy(arr)[:, :3] / 255.
            if len(a) == n and m.GetScalarModeAsString() != 'UsePointData':
                return a
            if len(a) == obj.npoints:
                return a
    return np.tile(base, (n, 1))


def kinds(vedo, objects):
    out = dict(tri=[], line=[], arrow=[], grid=[], other=[], legend=[])
    for o in objects:
        name = type(o).__name__
        if 'Arrows' in name:
            out['arrow'].append(o)
        elif 'LegendBox' in name:
            out['legend'].append(o)
        elif isinstance(o, vedo.Grid):
            out['grid'].append(o)
        elif isinstance(o, vedo.Lines):
            out['line'].append(o)
        elif len(o.cells) and len(o.cells[0]) == 3 and not len(o.lines):
            out['tri'].append(o)
        elif len(o.cells) == 0 and not len(o.lines):
            pass
        else:
            out['other'].append(o)
    return out


def drawn(objects, what):
    """(corners, colour) of all cells of the objects."""
    res = []
    for o in objects:
        cells = o.lines if what == 'line' else o.cells
        v = np.asarray(o.vertices, dtype=float)
        col = colours(o, len(cells))
        for k, c in enumerate(cells):
            if what == 'line':
                for a, b in zip(c[:-1], c[1:]):
                    cc = col[k] if len(col) == len(cells) else (col[a] + col[b]) / 2
                    res.append((v[[a, b]], cc))
            else:
                cc = col[k] if len(col) == len(cells) else col[c].mean(axis=0)
                res.append((v[c], cc))
    return res


def key(p):
    return tuple(sorted(tuple(x) for x in np.round(np.asarray(p, dtype=float), 3) + 0.))


def match(clause, what, want, got, optional=(), tol=.03):
    """want: [(corners, list of allowed colours)]; every one is drawn once, and nothing but optional things besides."""
    from collections import defaultdict
    here = defaultdict(lambda: ([], [], []))
    for k, things in enumerate((want, optional)):
        for p, cols in things:
            here[key(p)][k].append((p, cols))
    for p, c in got:
        here[key(p)][2].append(c)
    for k, (must, may, have) in here.items():
        if len(have) < len(must):
            raise core.Violation(clause, f'{what} {np.asarray(k).tolist()} is drawn {len(have)} times instead of {len(must)}')
        if len(have) > len(must) + len(may):
            raise core.Violation(clause + 'Extra', f'{what} {np.asarray(k).tolist()} is drawn {len(have)} times instead of {len(must)}')
        # every drawn one needs a reason of its own, and all that must be visible are
        fits = lambda c, cols: any(np.abs(c - q).max() < tol for q in cols)
        both = must + may
        if not assign([[i for i, (_, cols) in enumerate(both) if fits(c, cols)] for c in have]) or not assign([[i for i, c in enumerate(have) if fits(c, cols)] for _, cols in must]):
            raise core.Violation(clause + 'Colour', f'{what} {np.asarray(k).tolist()} is drawn in {[x.tolist() for x in have]}, the possible colours are {[[x.tolist() for x in cols] for _, cols in both]}')


def assign(options):
    """Whether everyone can get an option of his own."""
    owner = {}

    def place(i, seen):
        for o in options[i]:
            if o not in seen:
                seen.add(o)
                if o not in owner or place(owner[o], seen):
                    owner[o] = i
                    return True
        return False
    return all(place(i, set()) for i in range(len(options)))


def arrows(objs, want):
    """One arrow per element, from its centre along its normal."""
    n = sum(len(np.asarray(o.vertices)) for o in objs)
    if not want:
        if n:
            raise core.Violation('Normals', 'arrows without being asked for')
        return
    chunks = []
    # pieces that hang together: the glyphs of one object all have the same number of vertices
    counts = []
    for o in objs:
        per = next((k for k in (101, 31) if o.npoints % k == 0), None)
        v = np.asarray(o.vertices, dtype=float)
        ids = o.pointdata['InputPointIds'] if 'InputPointIds' in o.pointdata.keys() else None
        if ids is not None:
            for i in np.unique(ids):
                chunks.append(v[ids == i])
        else:
            counts.append(per)
            chunks += list(v.reshape(-1, per, 3))
    if len(chunks) != len(want):
        raise core.Violation('Normals', f'{len(chunks)} arrows for {len(want)} elements')
    free = list(range(len(chunks)))
    for w in want:
        o, d = np.array(w['o'], dtype=float) / 6, np.array(w['n'], dtype=float)
        d /= np.linalg.norm(d)
        ok = None
        for i in free:
            x = chunks[i] - o
            along = x @ d
            far = np.linalg.norm(x, axis=1).max()
            aside = np.linalg.norm(x[along.argmax()] - along.max() * d)
            if along.max() > .99 * far and aside < .02 * far and along.min() > -.02 * far and np.linalg.norm(x.mean(axis=0) - (x.mean(axis=0) @ d) * d) < .06 * far:
                ok = i
                break
        if ok is None:
            raise core.Violation('Normals', f'no arrow from {o.tolist()} along {d.tolist()}')
        free.remove(ok)


class Scenes:
    """A few solved problems, by number."""

    def __init__(self):
        import traceon.geometry as G, traceon.excitation as E, traceon.solver as S
        self.G, self.E, self.S, self.cache = G, E, S, {}

    def make(self, k):
        G, E = self.G, self.E
        P, F = G.Path, G.Surface
        if k <= 4:
            m = P.circle_xz(3., 0., .5).mesh(mesh_size=.7, name='e', higher_order=k == 2) + P.line([1., 0, 3.], [2., 0, 3.]).mesh(mesh_size=.5, name='f', higher_order=k == 2)
            if k in (3, 4):
                m = m + F.rectangle_xz(1., 2., -1., 1.).mesh(mesh_size=.7, name='c')
            x = E.Excitation(m, E.Symmetry.RADIAL)
            if k == 1:
                x.add_voltage(e=5., f=-3.)
            elif k == 2:
                x.add_voltage(f=4.)
                x.add_dielectric(e=3.)
            elif k == 3:
                x.add_magnetizable(e=5., f=2.)
                x.add_current(c=2.)
            else:
                x.add_voltage(e=2., f=0.)
        elif k == 9:
            # more parts, named in another order than they were made in
            m = sum((P.line([1. + .4 * i, 0., 2. * i], [2., 0., 2. * i + 1.]).mesh(mesh_size=.5, name=n) for i, n in enumerate('dacb')), P.circle_xz(4., -3., .5).mesh(mesh_size=.9, name='z'))
            x = E.Excitation(m, E.Symmetry.RADIAL)
            x.add_voltage(z=1., a=-2., d=3.)
            x.add_dielectric(b=4.)
            x.add_voltage(c=.5)
        elif k == 10:
            m = sum((F.rectangle_xy(-1., 1. + i, -1., 1.).move(dz=2. * i - 2.).mesh(mesh_size=1.2, name=n) for i, n in enumerate('dac')), F.rectangle_yz(-1., 1., -1., 1.).move(dx=4.).mesh(mesh_size=1.2, name='b'))
            x = E.Excitation(m, E.Symmetry.THREE_D)
            x.add_voltage(c=1., b=-3., d=2., a=.5)
        else:
            m = F.box([-1., -1, -1.], [1., 1., 1.]).mesh(mesh_size=1.5, name='e') + F.rectangle_xy(-1., 1., -1., 1.).move(dz=3.).mesh(mesh_size=1., name='f')
            if k in (7, 8):
                m = m + P.line([0., 0, 5], [1., 0, 5.]).mesh(mesh_size=.3, name='l')
            x = E.Excitation(m, E.Symmetry.THREE_D)
            if k == 5:
                x.add_voltage(e=5., f=-3.)
            elif k == 6:
                x.add_voltage(f=4.)
            elif k == 7:
                x.add_magnetostatic_potential(e=4., f=1.)
            else:
                x.add_voltage(e=2.)
                x.add_dielectric(f=4.)
        return x, self.S.solve_direct(x)

    def __getitem__(self, k):
        if k not in self.cache:
            self.cache[k] = self.make(k)
        return self.cache[k]


SURFACES = [lambda G: G.Surface.rectangle_xz(.2, 2., 4., 6.), lambda G: G.Surface.rectangle_xy(-1., 2., -.5, 1.).move(dz=1.7), lambda G: G.Surface.rectangle_yz(-1., 1., 1.5, 2.5),
            lambda G: G.Path.line([.5, 0., 1.4], [1., 0., 2.3]).revolve_z(angle=2.)]


def expected(vedo, scenes, items):
    """Everything a figure has to show."""
    E = scenes.E
    w = dict(tri=[], line=[], maybe=[], arrows=[], grids=[], legend=set(), cols=set())
    for i in items:
        if i['kind'] == 'mesh':
            cols = {} if i['cols'] == [] else i['cols']
            for c in i['cells']:
                w['tri' if len(c['p']) == 3 else 'line'].append((c['p'], [rgb(vedo, GREY if x == 'grey' else x) for x in c['c']]))
                if len(c['c']) == 1 and c['c'] != ['grey']:
                    w['legend'].add(frozenset((n, col) for n, col in cols.items() if col == c['c'][0]))
            w['cols'] |= set(cols.items())
            w['arrows'] += i['arrows']
        elif i['kind'] == 'traj':
            for p in i['pieces']:
                (w['line'] if p['must'] else w['maybe']).append((p['p'], [rgb(vedo, i['col'])]))
        elif i['kind'] == 'charge':
            x, f = scenes[i['scene']]
            el = x.is_electrostatic()
            v, names = x.get_electrostatic_active_elements() if el else x.get_magnetostatic_active_elements()
            q = (f.electrostatic_point_charges if el else f.magnetostatic_point_charges).charges
            kind = 'line' if x.symmetry == E.Symmetry.RADIAL else 'tri'
            for n, idx in names.items():
                for j in idx:
                    w[kind].append((v[j][:2] if kind == 'line' else v[j][:3], [np.array(vedo.color_map(q[j], name=i['map'], vmin=q.min(), vmax=q.max()))]))
        else:
            w['grids'].append(i)
    return w


def compare(vedo, scenes, items, objects):
    w, got = expected(vedo, scenes, items), kinds(vedo, objects)
    match('Triangles', 'triangle', w['tri'], drawn(got['tri'], 'tri'))
    match('Lines', 'line', w['line'], drawn(got['line'], 'line'), w['maybe'])
    arrows(got['arrow'], w['arrows'])
    if len(got['grid']) != len(w['grids']):
        raise core.Violation('Potential', f'{len(got["grid"])} surfaces coloured, {len(w["grids"])} asked for')
    for i, g in zip(w['grids'], got['grid']):
        x, f = scenes[i['scene']]
        s = SURFACES[i['surface'] - 1](scenes.G)
        want = {}
        for a in np.linspace(0, s.path_length1, i['n'][0]):
            for b in np.linspace(0, s.path_length2, i['n'][1]):
                p = s(a, b)
                want[key([p])] = f.potential_at_point(p)
        have = {}
        scal = g.dataset.GetPointData().GetScalars()
        from vtkmodules.util.numpy_support import vtk_to_numpy
        values = vtk_to_numpy(scal)
        for p, v in zip(np.asarray(g.vertices, dtype=float), values):
            have[key([p])] = v
        if sorted(want) != sorted(have):
            raise core.Violation('PotentialPlace', f'pixels at {sorted(have)[:4]}, expected {sorted(want)[:4]}')
        size = max(map(abs, want.values()))
        for k in want:
            if not abs(want[k] - have[k]) <= 1e-5 * size:
                raise core.Violation('PotentialValue', f'{have[k]} at {k}, the potential is {want[k]}')


def legend(vedo, box, w):
    entries = [(box.GetEntryString(i), np.array(box.GetEntryColor(i))) for i in range(box.GetNumberOfEntries())]
    same = lambda e, x: e[0] == x[0] and np.abs(e[1] - rgb(vedo, x[1])).max() < .03
    names = {n for n, _ in w['cols']}
    for e in entries:
        if e[0] in names and not any(same(e, x) for x in w['cols']):
            raise core.Violation('LegendColour', f'{e} in the legend, colours are {sorted(w["cols"])}')
    for alike in w['legend']:
        if not any(same(e, x) for e in entries for x in alike):
            raise core.Violation('LegendNames', f'none of {sorted(alike)} is in the legend {entries}')


def run(ctx):
    import vedo
    vedo.Plotter = Plotter
    import traceon.plotting as PL, traceon.mesher as M, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    if getattr(PL, 'Plotter', None) is not None:
        PL.Plotter = Plotter
    core.design(ctx, 'Plotting', 'Spec', dict(Sim=False, Emit=False, MaxOps=6 if ctx.quick else 8), INV, heap='6g', timeout=3000)
    bs = core.generate(ctx, 'Plotting', 'SimSpec', dict(Sim=True, Emit=True, MaxOps=7), num=160 if ctx.quick else 4000, depth=14, parts=4, invariants=['Done'])
    scenes = Scenes()
    for b in bs:
        try:
            PL.show()       # leave no figures of the session before
        except Exception:
            PL._current_figures = []
        Plotter.made.clear()
        kept, shown, seen = {}, 0, []
        try:
            for n, o in enumerate(b['log']):
                seen.append({k: v for k, v in o.items()})
                ctx.step(dict(session=seen))
                if o['op'] == 'figure':
                    kept[n + 1] = PL.new_figure(show_legend=o['legend'])
                elif o['op'] == 'get':
                    f = PL.get_current_figure()
                    if o['id'] in kept and kept[o['id']] is not f:
                        raise core.Violation('CurrentFigure', f'operation {n + 1} of {b["log"]}')
                    kept[o['id']] = f
                elif o['op'] == 'show':
                    before = len(Plotter.made)
                    PL.show()
                    want = b['shown'][shown]
                    shown += 1
                    made = [p for p in Plotter.made[before:] if p.shows]
                    if len(made) != len(want) or any(p.shows != 1 for p in made):
                        raise core.Violation('FiguresShown', f'{len(made)} figures displayed, expected {len(want)}, operations {[x["op"] for x in seen]}')
                    for w, p in zip(want, made):
                        compare(vedo, scenes, w['items'], p.objects)
                        legends = [x for x in p.objects if 'LegendBox' in type(x).__name__]
                        if bool(legends) != bool(w['legend']):
                            raise core.Violation('Legend', f'legend {"shown" if legends else "missing"}')
                        for lb in legends:
                            legend(vedo, lb, expected(vedo, scenes, w['items']))
                        ctx.count('figures')
                else:
                    i = o['item']
                    if o['op'] == 'draw':
                        target = PL
                    else:
                        target = kept[o['id']] or PL
                    draw(PL, target, scenes, M, i)
                    ctx.count(i['kind'])
                    # a figure made by drawing
                    if o['op'] == 'draw':
                        cur = current_id(b['log'], n)
                        if cur not in kept:
                            kept[cur] = PL.get_current_figure()
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, b)
        ctx.validated += 1
        ctx.sample([o['op'] for o in b['log']])
    ctx.assumptions += ['the window is a stand-in; what vedo objects contain is what is visible', 'colours of elements with several coloured names may be any of theirs',
                        'pieces of a trajectory that bridge a part outside the limits may be drawn or not']


def current_id(log, n):
    """The number of the figure in which operation n draws."""
    cur = None
    for k, o in enumerate(log[:n + 1]):
        if o['op'] == 'show':
            cur = None
        elif o['op'] == 'figure':
            cur = k + 1
        elif o['op'] == 'get':
            cur = o['id']
        elif o['op'] == 'draw' and cur is None:
            cur = k + 1
    return cur


def draw(PL, target, scenes, M, i):
    if i['kind'] == 'mesh':
        m = build_mesh(M, i['mesh'])
        target.plot_mesh(m, show_normals=i['normals'], **({} if i['cols'] == [] else i['cols']))
    elif i['kind'] == 'traj':
        lim = {}
        for a, (lo, hi) in zip('xyz', i['lim']):
            if lo != 99:
                lim[a + 'min'] = lo
            if hi != 99:
                lim[a + 'max'] = hi
        ts = [np.hstack([np.array(t, dtype=float).reshape(-1, 3), np.ones((len(t), 3))]) for t in i['ts']]
        target.plot_trajectories(ts, color=i['col'], **lim)
    elif i['kind'] == 'charge':
        x, f = scenes[i['scene']]
        target.plot_charge_density(x, f, color_map=i['map'])
    else:
        x, f = scenes[i['scene']]
        target.plot_equipotential_lines(f, SURFACES[i['surface'] - 1](scenes.G), N0=i['n'][0], N1=i['n'][1], N_isolines=i['lines'])


def build_mesh(M, a):
    from props.meshes import arrays
    return M.Mesh(ensure_outward_normals=False, **arrays(a))
