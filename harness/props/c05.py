"""C05: behaviours of SurfaceAlgebra.tla replayed on Path, Surface and the collections."""
import math
import numpy as np
import core

DEN = 960.
DIRS = '{<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>, <<3,4,0>>, <<0,3,-4>>, <<-4,0,3>>, <<2,-1,2>>, <<1,2,-2>>}'
TOL = 1e-8


def fail(clause, detail):
    raise core.Violation(clause, detail)


def turn(axis, angle, p):
    """Counter clockwise rotation seen against the axis (exact definition used by the specification)."""
    i, j = {1: (1, 2), 2: (2, 0), 3: (0, 1)}[axis]
    q = np.array(p, dtype=float)
    q[i], q[j] = math.cos(angle) * p[i] - math.sin(angle) * p[j], math.sin(angle) * p[i] + math.cos(angle) * p[j]
    return q


def expected_grid(e):
    g = np.array(e['grid'], dtype=float) / DEN
    n = g.shape[0] - 1
    if e['k'] == 'revolve':
        g = np.array([[turn(e['axis'], e['ang'] * math.pi / 8 * j / n, g[i, j]) for j in range(n + 1)] for i in range(n + 1)])
    if e['cap'][0]:
        g = np.array([[turn(e['cap'][0], e['cap'][1] * math.pi / 8, g[i, j]) for j in range(n + 1)] for i in range(n + 1)])
    return g


def near(a, b):
    a = np.asarray(a, dtype=float)
    return a.shape == (3,) and bool(np.all(np.abs(a - b) <= 1e-7))


def compare_path(p, e, label):
    if abs(p.path_length - e['len']) > TOL:
        fail('Length', f'{label}: {p.path_length} expected {e["len"]}')
    if (p.name or '') != e['name']:
        fail('Name', f'{label}: {p.name!r} expected {e["name"]!r}')
    bs = [float(b) for b in p.breakpoints]
    if bs != sorted(bs):
        fail('CornersAscending', f'{label}: {bs}')
    if not same_corners(bs, e['corners'], e['len']):
        fail('Corners', f'{label}: {bs} expected {e["corners"]}')
    at = [0] + list(e['corners']) + [e['len']]
    for k, (a, b) in enumerate(zip(at, at[1:])):
        for f in (0., .3, 1.):
            want = (1 - f) * np.array(e['pts'][k], dtype=float) + f * np.array(e['pts'][k + 1], dtype=float)
            got = p(min(a + f * (b - a), p.path_length))
            if not near(got, want):
                fail('Points', f'{label}: at {a + f * (b - a)}: {got} expected {want}')
    if bool(p.is_closed()) != e['closed']:
        fail('Closed', label)


def same_corners(got, want, length):
    u = []
    for b in got:
        if b < -TOL or b > length + TOL:
            return False
        if TOL < b < length - TOL and not (u and b - u[-1] < TOL):
            u.append(b)
    return len(u) == len(want) and all(abs(a - b) < TOL * max(1, length) for a, b in zip(u, want))


def compare_surface(G, s, e, label, edges=True):
    if not isinstance(s, G.Surface):
        fail('Kind', f'{label}: {type(s)}')
    if e['k'] != 'fill' and e['k'] != 'span' and (s.name or '') != e['name']:
        fail('Name', f'{label}: {s.name!r} expected {e["name"]!r}')
    L1, L2 = float(s.path_length1), float(s.path_length2)
    for L, want, n in ((L1, e['l1'], 1), (L2, e['l2'], 2)):
        if not (L > 0 and math.isfinite(L)) or (want and abs(L - want / 2) > TOL * L):
            fail('Length', f'{label}: path_length{n} {L} expected {want / 2}')
    for bs, want, L, n in ((s.breakpoints1, e['c1'], L1, 1), (s.breakpoints2, e['c2'], L2, 2)):
        bs = [float(b) for b in bs]
        if any(b < a - TOL for a, b in zip(bs, bs[1:])):
            fail('CornersAscending', f'{label}: breakpoints{n} {bs}')
        if not same_corners(bs, [a / b * L for a, b in want], L):
            fail('Corners', f'{label}: breakpoints{n} {bs} expected {[a / b * L for a, b in want]}')
    g = expected_grid(e)
    n = g.shape[0] - 1
    for i in range(n + 1):
        for j in range(n + 1):
            got = s(L1 * i / n, L2 * j / n)
            if not near(got, g[i, j]):
                fail('Points', f'{label}: at the fractions {i}/{n}, {j}/{n}: {got} expected {g[i, j]}')
    if not edges:
        return
    # the boundary consists of the four edges, or of the closed ones
    rows = [g[:, 0], g[:, -1], g[0, :], g[-1, :]]
    keep = [r for r, c in zip(rows, e['closed']) if c or not any(e['closed'])]
    b = s.get_boundary_paths()
    if not isinstance(b, G.PathCollection) or len(b.paths) != len(keep):
        fail('Boundary', f'{label}: {len(b.paths)} boundary paths, expected {len(keep)}')
    left = list(keep)
    for p in b.paths:
        pts = np.array([p(p.path_length * i / n) for i in range(n + 1)])
        m = [k for k, r in enumerate(left) if np.all(np.abs(r - pts) < 1e-7) or np.all(np.abs(r[::-1] - pts) < 1e-7)]
        if not m:
            fail('Boundary', f'{label}: boundary path {pts} is not an edge (or twice the same)')
        left.pop(m[0])


def apply(G, st, o):
    a, op = o['args'], o['op']
    P, S = st['paths'], st['surfs']
    fl = lambda v: [float(x) for x in v]
    if op == 'path':
        p = G.Path.line(fl(a['pts'][0]), fl(a['pts'][1]))
        for q in a['pts'][2:]:
            p = p.line_to(fl(q))
        if a['name']:
            p.name = a['name']
        return [p], [], None
    if op == 'extrude':
        return [], [P[a['i'] - 1].extrude(fl(a['v']))], None
    if op == 'extrude_by_path':
        return [], [P[a['i'] - 1].extrude_by_path(P[a['j'] - 1])], None
    if op == 'revolve':
        f = getattr(P[a['i'] - 1], 'revolve_' + 'xyz'[a['axis'] - 1])
        return [], [f() if a['ang'] == 16 else f(angle=a['ang'] * math.pi / 8)], None
    if op == 'span':
        return [], [G.Surface.spanned_by_paths(P[a['i'] - 1], P[a['j'] - 1])], None
    if op == 'fill':
        def poly(pts):
            p = G.Path.line(fl(pts[0]), fl(pts[1]))
            for q in pts[2:]:
                p = p.line_to(fl(q))
            return p
        ps = [poly(a[k]) for k in 'qrs']
        return ps, [G.Surface.from_boundary_paths(P[a['i'] - 1], *ps)], None
    if op == 'boundary':
        c = S[a['i'] - 1].get_boundary_paths()
        # (the order of the edges is not prescribed)
        want = [np.array(e['pts'], dtype=float) for e in o['paths']]
        left, res = list(c.paths), []
        for e in o['paths']:
            m = [p for p in left if near(p.starting_point(), np.array(e['pts'][0], dtype=float)) and near(p.endpoint(), np.array(e['pts'][-1], dtype=float)) and
                 abs(p.path_length - e['len']) < TOL and near(p(p.path_length * .37), polyline_at(e, .37))]
            if not m:
                fail('Boundary', f'edge {e["pts"]} is not among the boundary paths')
            left.remove(m[0])
            res.append(m[0])
        if left:
            fail('Boundary', 'too many boundary paths')
        c.paths = res
        return res, [], ('pc', c)
    if op in ('extrude_boundary', 'extrude_boundary_by_path', 'revolve_boundary'):
        s = S[a['i'] - 1]
        kw = {} if a['enclose'] else dict(enclose=False)
        if op == 'extrude_boundary':
            c = s.extrude_boundary(fl(a['v']), **kw)
        elif op == 'extrude_boundary_by_path':
            c = s.extrude_boundary_by_path(P[a['j'] - 1], **kw)
        else:
            c = getattr(s, 'revolve_boundary_' + 'xyz'[a['axis'] - 1])(angle=a['ang'] * math.pi / 8, **kw)
        if not isinstance(c, G.SurfaceCollection) or len(c.surfaces) != 1 + len(o['surfs']):
            fail('Shell', f'{op} made {len(c.surfaces)} surfaces, expected {1 + len(o["surfs"])}')
        mine = [x for x in c.surfaces if x is s]
        if not mine:
            fail('Shell', f'{op}: the surface itself is not part of the shell')
        rest = list(c.surfaces)
        rest.remove(s)
        # match by the grids, the order of the sides is not prescribed
        res = []
        for e in o['surfs']:
            m = [x for x in rest if grid_matches(x, e)]
            if not m:
                fail('Shell', f'{op} {a}: no surface of the shell is the side or cap {e["k"]} with corners {expected_grid(e)[[0, 0, -1, -1], [0, -1, 0, -1]].tolist()}')
            rest = [x for x in rest if x is not m[0]]
            res.append(m[0])
        c.surfaces = [s] + res
        return [], res, ('sc', c)
    if op == 'add_paths':
        return [], [], ('pc', P[a['i'] - 1] + P[a['j'] - 1])
    if op == 'add_surfs':
        return [], [], ('sc', S[a['i'] - 1] + S[a['j'] - 1])
    if op in ('add_pc', 'add_sc'):
        C, M = (st['pcolls'], P) if op == 'add_pc' else (st['scolls'], S)
        c, d, m = C[a['c'] - 1], C[a['d'] - 1], M[a['i'] - 1]
        return [], [], (op[-2:], c + m if a['how'] == 'cp' else m + c if a['how'] == 'pc' else c + d)
    if op in ('iadd_pc', 'iadd_sc'):
        C, M = (st['pcolls'], P) if op == 'iadd_pc' else (st['scolls'], S)
        c = C[a['c'] - 1]
        before = c
        c += M[a['i'] - 1] if a['how'] == 'p' else C[a['d'] - 1]
        if c is not before:
            fail('Collection', f'{op} returned a different object: {c}')
        return [], [], None
    if op == 'map_pc':
        c = st['pcolls'][a['c'] - 1]
        if a['how'] == 'extrude':
            r = c.extrude(fl(a['v']))
        elif a['how'] == 'by_path':
            r = c.extrude_by_path(P[a['j'] - 1])
        else:
            r = getattr(c, 'revolve_' + 'xyz'[a['axis'] - 1])(angle=a['ang'] * math.pi / 8)
        return [], list(r.surfaces), ('sc', r)
    if op == 'name_pc':
        st['pcolls'][a['c'] - 1].name = a['name']
        return [], [], None
    if op == 'name_sc':
        st['scolls'][a['c'] - 1].name = a['name']
        return [], [], None
    raise core.MachineryError(op)


def polyline_at(e, f):
    at = [0] + list(e['corners']) + [e['len']]
    s = f * e['len']
    for k, (a, b) in enumerate(zip(at, at[1:])):
        if s <= b:
            t = (s - a) / (b - a)
            return (1 - t) * np.array(e['pts'][k], dtype=float) + t * np.array(e['pts'][k + 1], dtype=float)


def grid_matches(s, e):
    g = expected_grid(e)
    n = g.shape[0] - 1
    return all(near(s(s.path_length1 * i / n, s.path_length2 * j / n), g[i, j]) for i in range(n + 1) for j in range(n + 1))


def replay(ctx, G, b):
    st = dict(paths=[], surfs=[], pcolls=[], scolls=[])
    log = []
    try:
        for k, o in enumerate(b['ops']):
            log.append((o['op'], o['args']))
            ctx.step(dict(history=log))
            ps, ss, ret = apply(G, st, o)
            if len(ps) != len(o['paths']) or len(ss) != len(o['surfs']):
                fail('Collection', f'{o["op"]} {o["args"]} made {len(ps)} paths and {len(ss)} surfaces')
            for p, e in zip(ps, o['paths']):
                compare_path(p, e, f'step {k + 1} {o["op"]} {o["args"]}')
            for s, e in zip(ss, o['surfs']):
                compare_surface(G, s, e, f'step {k + 1} {o["op"]} {o["args"]}')
            st['paths'] += ps
            st['surfs'] += ss
            if ret:
                kind = G.PathCollection if ret[0] == 'pc' else G.SurfaceCollection
                if not isinstance(ret[1], kind):
                    fail('Kind', f'{o["op"]} returned {type(ret[1])}')
                st[ret[0] + 'olls' if False else {'pc': 'pcolls', 'sc': 'scolls'}[ret[0]]].append(ret[1])
            ctx.count('operations ' + o['op'])
        for p, e in zip(st['paths'], b['paths']):
            compare_path(p, e, 'at the end')
        for s, e in zip(st['surfs'], b['surfs']):
            compare_surface(G, s, e, 'at the end', edges=False)
        for colls, exp, members, attr in ((st['pcolls'], b['pcolls'], st['paths'], 'paths'), (st['scolls'], b['scolls'], st['surfs'], 'surfaces')):
            for n, (c, ids) in enumerate(zip(colls, exp)):
                got = [next((i + 1 for i, m in enumerate(members) if m is x), None) for x in getattr(c, attr)]
                if got != list(ids):
                    fail('Collection', f'collection {n + 1} of {attr} has the members {got}, expected {ids}')
    except core.Violation as v:
        ctx.violation(v.clause, v.detail, dict(history=log))
    ctx.validated += 1
    ctx.sample(log)


def primitives(ctx, G, seed):
    """The ready made surfaces, against the set of points that their name describes."""
    rng = np.random.default_rng(seed)
    S = G.Surface
    for _ in range(6 if ctx.quick else 60):
        c = [float(x) for x in rng.integers(-3, 4, 3)]
        R = float(rng.integers(1, 5)) / 2
        w = [float(x) for x in rng.integers(1, 5, 3)]
        grid = lambda s: np.array([[s(s.path_length1 * i / 12, s.path_length2 * j / 12) for j in range(13)] for i in range(13)])
        for n, f, rect in ((2, S.disk_xy, S.rectangle_xy), (1, S.disk_xz, S.rectangle_xz), (0, S.disk_yz, S.rectangle_yz)):
            i, j = [k for k in range(3) if k != n]
            d = grid(f(c[i], c[j], R))
            r = np.hypot(d[..., i] - c[i], d[..., j] - c[j])
            if np.abs(d[..., n]).max() > TOL or r.max() > R + TOL or abs(max(r[0].min(), r[-1].min(), r[:, 0].min(), r[:, -1].min()) - R) > TOL or r.min() > TOL:
                fail('Primitive', f'{f.__name__}({c[i]}, {c[j]}, {R})')
            q = grid(rect(c[i], c[i] + w[i], c[j], c[j] + w[j]))
            if np.abs(q[..., n]).max() > TOL or any(abs(q[..., k].min() - c[k]) > TOL or abs(q[..., k].max() - c[k] - w[k]) > TOL for k in (i, j)):
                fail('Primitive', f'{rect.__name__}({c}, {w})')
            ctx.count('primitives', 2)
        s = grid(S.sphere(R))
        if np.abs(np.linalg.norm(s, axis=2) - R).max() > TOL or abs(s[..., 2].max() - R) > TOL or abs(s[..., 2].min() + R) > TOL or abs(s[..., 0].min() + R) > TOL:
            fail('Primitive', f'sphere({R})')
        p0, p1 = np.array(c), np.array(c) + np.array(w) * rng.choice([-1., 1.], 3)
        lo, hi = np.minimum(p0, p1), np.maximum(p0, p1)
        faces = {}
        for part in S.box(list(p0), list(p1)).surfaces:
            g = np.array([[part(part.path_length1 * (i + .5) / 64, part.path_length2 * (j + .5) / 3) for j in range(3)] for i in range(64)]).reshape(-1, 3)
            if np.any(g < lo - TOL) or np.any(g > hi + TOL):
                fail('Primitive', f'box({p0}, {p1}) has points outside')
            on = [(k, e) for k in range(3) for e in (0, 1)]
            hit = np.array([np.abs(g[:, k] - (lo, hi)[e][k]) < TOL for k, e in on])
            if not hit.any(axis=0).all():
                fail('Primitive', f'box({p0}, {p1}) has points inside')
            for k, h in zip(on, hit):
                faces[k] = faces.get(k, 0) + int(h.sum())
        if any(faces[k] == 0 for k in faces):
            fail('Primitive', f'box({p0}, {p1}) misses faces: {faces}')
        h, r, e, z = w[0], R, R + w[1], c[0]
        a = S.aperture(h, r, e, z=z)
        g = grid(a)
        rad = np.hypot(g[..., 0], g[..., 1])
        if abs(rad.min() - r) > TOL or abs(rad.max() - e) > TOL or abs(g[..., 2].min() - z + h / 2) > TOL or abs(g[..., 2].max() - z - h / 2) > TOL:
            fail('Primitive', f'aperture({h}, {r}, {e}, {z})')
        ctx.count('primitives', 3)


def run(ctx):
    import traceon.geometry as G
    inv = ['StartsAtPath', 'OppositeEdge', 'FilledEdges', 'CornersAscend', 'BoundaryIsEdges']
    core.design(ctx, 'SurfaceAlgebra', 'Init /\\ [][NextMake]_vars', dict(Sim=False, Emit=False, Depth=2, Dirs='{<<1,0,0>>, <<0,0,1>>}' if ctx.quick else '{<<1,0,0>>, <<0,0,1>>, <<-1,0,0>>}',
                MaxN=1, Starts='{<<1,0,0>>}', Names='{""}', MaxObj=6), inv, heap='6g', timeout=3000)
    depth = 9 if ctx.quick else 14
    bs = core.generate(ctx, 'SurfaceAlgebra', 'Init /\\ [][NextSim]_vars',
                       dict(Sim=True, Emit=True, Depth=depth, Dirs=DIRS, MaxN=3, Starts='{<<0,0,0>>, <<1,0,2>>, <<3,-1,0>>, <<-2,4,1>>}', Names='{"", "a", "b"}', MaxObj=40),
                       num=900 if ctx.quick else 4000, depth=depth + 1, parts=6, invariants=inv + ['Done'])
    seen = set()
    cap = 900 if ctx.quick else 20000
    for b in bs[::max(1, len(bs) // cap)]:
        # members at the end are what they were when they were made, but for their names
        for kind in ('paths', 'surfs'):
            made = [e for o in b['ops'] for e in o[kind]]
            b[kind] = [dict(e, name=n) for e, n in zip(made, b[kind])]
        replay(ctx, G, b)
    try:
        ctx.step('primitives')
        primitives(ctx, G, ctx.seed)
    except core.Violation as v:
        ctx.violation(v.clause, v.detail)
    ctx.assumptions += ['surfaces are compared at the fractions 0, 1/4, .., 1 of both parameters']
