"""C04: behaviours of Rigid.tla applied to every kind of geometric object."""
import math
import numpy as np
import core

KINDS = ['polyline', 'circle', 'paths', 'paths2', 'extruded', 'revolved', 'spanned', 'box', 'shell', 'mesh_lines', 'mesh_lines4', 'mesh_triangles', 'mesh_mixed', 'mesh_triangles6', 'mesh_empty', 'surfaces2', 'grid', 'filled']
TOL = 1e-8


def base(G, M, kind):
    P, S = G.Path, G.Surface
    poly = lambda: P.line([1., 0., 2.], [3., 0., 2.]).line_to([3., 2., 2.]).arc_to([3., 2., 4.], [3., 4., 4.]).line_to([3., 4., 7.])
    if kind == 'polyline':
        p = poly()
        p.name = 'poly'
        return p
    if kind == 'circle':
        return P.circle_xz(3., 1., 2.)
    if kind == 'paths':
        c = poly() + P.line([0., 1., 0.], [0., 1., 3.])
        c.name = 'both'
        return c
    if kind == 'paths2':
        p = poly()
        p.name = 'one'
        return p + (P.circle_xy(1., 2., 1.) + P.rectangle_xz(1., 2., 0., 4.))
    if kind == 'extruded':
        s = poly().extrude([0., 1., 2.])
        s.name = 'ext'
        return s
    if kind == 'revolved':
        s = P.line([1., 0., 0.], [2., 0., 1.]).line_to([2., 0., 3.]).revolve_z(angle=1.5 * math.pi)
        return s
    if kind == 'spanned':
        return S.spanned_by_paths(P.line([0., 0., 0.], [1., 0., 0.]).line_to([1., 1., 0.]), P.line([0., 0., 2.], [3., 0., 2.]).line_to([3., 1., 3.]).line_to([3., 2., 3.]))
    if kind == 'box':
        b = S.box([1., -1., 0.], [2., 1., 3.])
        b.name = 'box'
        return b
    if kind == 'shell':
        return S.disk_xy(1., 0., 2.).extrude_boundary([0., 0., 3.])
    if kind == 'grid':          # corners at the same distances in both directions
        s = P.line([0., 0., 0.], [1., 0., 0.]).line_to([1., 1., 0.]).line_to([3., 1., 0.]).extrude_by_path(P.line([0., 0., 0.], [0., 0., 1.]).line_to([1., 0., 1.]).line_to([1., 0., 3.]).line_to([2., 0., 3.]))
        s.name = 'grid'
        return s
    if kind == 'filled':
        return S.from_boundary_paths(P.line([0., 0., 0.], [1., 0., 0.]).line_to([3., 0., 0.]), P.line([3., 0., 0.], [3., 1., 0.]).line_to([3., 3., 1.]), P.line([3., 3., 1.], [2., 3., 1.]).line_to([0., 3., 1.]), P.line([0., 3., 1.], [0., 2., 0.]).line_to([0., 0., 0.]))
    if kind == 'surfaces2':
        a = S.rectangle_xz(1., 2., 3., 5.)
        a.name = 'plate'
        return a + S.sphere(1.).move(dx=4.)
    if kind == 'mesh_lines':
        return P.aperture(1., 1., 3.).mesh(mesh_size=.7, name='ap')
    if kind == 'mesh_lines4':
        return P.circle_xz(2., 1., 1.).mesh(mesh_size=.9, higher_order=True)
    if kind == 'mesh_triangles':
        return S.box([1., -1., 0.], [2., 1., 3.]).mesh(mesh_size=1., name='box') + S.sphere(1.).move(dx=5.).mesh(mesh_size=3.)
    if kind == 'mesh_mixed':
        m = P.rectangle_xz(1., 2., 0., 2.).mesh(mesh_size=.5, name='lines') + S.rectangle_xy(-1., 1., -1., 2.).mesh(mesh_size=.8, name='tri')
        m = m + P.line([3., 0., 0.], [3., 0., 5.]).mesh(mesh_size=1.) + S.disk_xz(5., 0., 1.).mesh(mesh_size=1.)
        m.physical_to_lines['both'] = np.array([0, 2, 3])
        m.physical_to_triangles['both'] = np.array([1, 3])
        return m
    if kind == 'mesh_triangles6':
        pts = [[0., 0, 0], [2, 0, 0], [0, 2, 1], [1, 0, 0.2], [1, 1, .7], [0, 1, .5], [3, 3, 3], [2., 2, 2], [1, 2, 2]]
        return M.Mesh(points=pts, triangles=[[0, 1, 2, 3, 4, 5], [1, 6, 2, 7, 8, 4]], lines=[[0, 1, 3, 4]])
    if kind == 'mesh_empty':
        return M.Mesh()
    raise core.MachineryError(kind)


def describe(G, M, o, f):
    """Everything observable about an object, with its points mapped by f."""
    if isinstance(o, G.Path):
        L = o.path_length
        return dict(kind='path', name=o.name, length=L, breakpoints=list(map(float, o.breakpoints)), closed=bool(o.is_closed()),
                    points=[f(np.asarray(o(t))) for t in np.linspace(0, L, 13)])
    if isinstance(o, G.Surface):
        a, b = o.path_length1, o.path_length2
        return dict(kind='surface', name=o.name, length=(a, b), breakpoints=(list(map(float, o.breakpoints1)), list(map(float, o.breakpoints2))),
                    points=[f(np.asarray(o(u, v))) for u in np.linspace(0, a, 6) for v in np.linspace(0, b, 6)])
    if isinstance(o, G.PathCollection):
        return dict(kind='paths', parts=[describe(G, M, p, f) for p in o.paths])
    if isinstance(o, G.SurfaceCollection):
        return dict(kind='surfaces', parts=[describe(G, M, p, f) for p in o.surfaces])
    if isinstance(o, M.Mesh):
        g = {('l', k): sorted(map(int, v)) for k, v in o.physical_to_lines.items()}
        g.update({('t', k): sorted(map(int, v)) for k, v in o.physical_to_triangles.items()})
        if not np.all(np.isfinite(np.asarray(o.points))):
            raise core.Violation('Points', 'points that are not finite')
        pts = f(np.asarray(o.points))
        loose = {c: {i for k, v in g.items() if k[0] == c for i in v} for c in 'lt'}
        els = lambda arr, c: (pts[np.asarray(arr).astype(int)], np.array([n in loose[c] for n in range(len(arr))], dtype=bool))
        return dict(kind='mesh', groups=g, n=len(pts), lines=els(o.lines, 'l'), triangles=els(o.triangles, 't'), ho=bool(o.is_higher_order()),
                    points=pts)
    raise core.Violation('Kind', f'unknown kind of object {type(o)}')


FLIP = {2: [1, 0], 4: [1, 0, 3, 2], 3: [0, 2, 1], 6: [0, 2, 1, 5, 4, 3]}


def farthest(a, b):
    """The largest distance (maximum norm) of a point of a to the set b."""
    return max(np.abs(a[i:i + 100, None, :] - b[None, :, :]).max(axis=2).min(axis=1).max() for i in range(0, len(a), 100))


def equal(exp, got, where, scale):
    """Compare descriptions; raise Violation at the first difference."""
    def fail(clause, d):
        raise core.Violation(clause, f'{where}: {d}')
    if exp['kind'] != got['kind']:
        fail('Kind', f'{got["kind"]}, expected {exp["kind"]}')
    if 'parts' in exp:
        if len(exp['parts']) != len(got['parts']):
            fail('Kind', f'{len(got["parts"])} parts, expected {len(exp["parts"])}')
        for k, (a, b) in enumerate(zip(exp['parts'], got['parts'])):
            equal(a, b, f'{where} part {k}', scale)
        return
    if exp['kind'] == 'mesh':
        if exp['groups'] != got['groups']:
            fail('Groups', f'{got["groups"]} expected {exp["groups"]}')
        for key in ('lines', 'triangles'):
            if len(exp[key][0]) != len(got[key][0]):
                fail('Elements', f'{len(got[key][0])} {key}, expected {len(exp[key][0])}')
            (a, loose), (b, _) = exp[key], got[key]
            if a.shape != b.shape:
                fail('Elements', f'{key} of shape {b.shape}, expected {a.shape}')
            bad = np.max(np.abs(a - b), axis=(1, 2)) > TOL * scale if len(a) else np.array([], dtype=bool)
            if bad.any():   # named elements are turned around when that is needed to keep normals outwards
                turned = np.max(np.abs(a[:, FLIP[a.shape[1]]] - b), axis=(1, 2)) <= TOL * scale
                bad &= ~(turned & loose)
            if bad.any():
                n = int(np.where(bad)[0][0])
                fail('Elements', f'{key}[{n}] at {b[n].tolist()}, expected {a[n].tolist()}')
        a, b = exp['points'], got['points']
        if (len(a) == 0) != (len(b) == 0):
            fail('Elements', f'{len(b)} points, expected {len(a)}')
        if len(a) and max(farthest(a, b), farthest(b, a)) > TOL * scale:
            fail('Elements', f'the points of the mesh (there are {len(b)}, expected {len(a)})')
        if exp['ho'] != got['ho']:
            fail('Elements', 'order of the elements')
        return
    if exp['name'] != got['name']:
        fail('Name', f'{got["name"]!r} expected {exp["name"]!r}')
    if not np.allclose(exp['length'], got['length'], rtol=1e-12):
        fail('Length', f'{got["length"]} expected {exp["length"]}')
    if exp['kind'] == 'path' and exp['closed'] != got['closed']:
        fail('Closed', f'{got["closed"]}')
    eb, gb = (exp['breakpoints'], got['breakpoints']) if exp['kind'] == 'surface' else ((exp['breakpoints'],), (got['breakpoints'],))
    for a, b in zip(eb, gb):
        if len(a) != len(b) or not np.allclose(a, b, rtol=1e-12):
            fail('Corners', f'{gb} expected {eb}')
    for a, b in zip(exp['points'], got['points']):
        if b.shape != (3,) or np.max(np.abs(a - b)) > TOL * scale:
            fail('Points', f'{b} expected {a}')


class affine:
    def __init__(self, m):
        self.A, self.b = np.array(m['m'], dtype=float) / m['den'], np.array(m['b'], dtype=float) / m['den']

    def __call__(self, p):
        return p @ self.A.T + self.b


def apply(o, op, a):
    if op == 'move':
        d = a['d']
        if d[0] == 0 and d[2] == 0:
            return o.move(dy=d[1])
        return o.move(dx=float(d[0]), dy=float(d[1]), dz=d[2])
    if op == 'rotate':
        ang = a['angle'][0] * math.pi / 2 + a['angle'][1] * math.atan2(4, 3)
        kw = {} if a['origin'] == [0, 0, 0] else dict(origin=[float(x) for x in a['origin']])
        return o.rotate(**{'R' + 'xyz'[a['axis'] - 1]: ang}, **kw)
    return [o.mirror_yz, o.mirror_xz, o.mirror_xy][a['axis'] - 1]()


def run(ctx):
    import traceon.geometry as G, traceon.mesher as M
    inv = ['Orthogonal', 'Handed', 'FixedPoint', 'TurnBack', 'MirrorTwice']
    orig = '{<<0,0,0>>, <<1,-2,3>>, <<0,4,0>>}'
    core.design(ctx, 'Rigid', 'Init /\\ [][Next]_vars', dict(Sim=False, Emit=False, Depth=2 if ctx.quick else 3, Origins=orig, Kinds='{"x"}', MaxDen=625), inv, heap='6g', timeout=2500)
    bs = core.generate(ctx, 'Rigid', 'Init /\\ [][Next]_vars',
                       dict(Sim=True, Emit=True, Depth=4 if ctx.quick else 6, Origins='{<<0,0,0>>, <<1,-2,3>>, <<0,4,0>>, <<-3,0,1>>, <<2,5,-1>>}', Kinds='{' + ', '.join(f'"{k}"' for k in KINDS) + '}', MaxDen=125),
                       num=240 if ctx.quick else 3000, depth=9, parts=4, invariants=inv + ['Done'])
    ident = lambda p: p
    sizes = {}
    for n, b in enumerate(bs):
        kind = b['kind']
        root = base(G, M, kind)
        desc0 = describe(G, M, root, ident)
        heap, maps, log = [root], [dict(m=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], b=[0, 0, 0], den=1)], []
        try:
            for o in b['ops']:
                log.append((o['op'], o['args']))
                ctx.step(dict(kind=kind, history=log))
                new = apply(heap[o['args']['i'] - 1], o['op'], o['args'])
                heap.append(new)
                maps.append(o['map'])
                exp = describe(G, M, root, affine(o['map']))
                equal(exp, describe(G, M, new, ident), f'{kind} after {log}', 40.)
            equal(desc0, describe(G, M, root, ident), f'the original {kind} after {log}', 40.)
            for h, m in zip(heap, maps):
                equal(describe(G, M, root, affine(m)), describe(G, M, h, ident), f'an earlier {kind} after {log}', 40.)
            # meshing after transforming is transforming the mesh
            if not isinstance(root, M.Mesh):
                last = heap[-1]
                kw = dict(mesh_size=.83) if n % 2 else dict(mesh_size_factor=1.37 if hasattr(root, 'path_length1') or hasattr(root, 'surfaces') else 2)
                if kind in ('polyline', 'circle', 'paths', 'paths2') and n % 3 == 0:
                    kw['higher_order'] = True
                ctx.step(dict(kind=kind, history=log, mesh=kw))
                m0, m1 = root.mesh(**kw), last.mesh(**kw)
                equal(describe(G, M, m0, affine(maps[-1])), describe(G, M, m1, ident), f'mesh of {kind} after {log}', 40.)
                ctx.count('meshes compared')
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, dict(kind=kind, history=log))
        ctx.validated += 1
        ctx.count('kind ' + kind)
        ctx.sample(dict(kind=kind, history=log))
    ctx.assumptions += ['elements of named groups may be turned around by a transformation (meshes re-ensure outward normals)', 'coordinates are compared within 4e-7']
