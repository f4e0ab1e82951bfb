"""C06: shells made by sweeping the boundary of a surface, recorded as vertex stars and validated against Shell.tla."""
import math
import numpy as np
import core

CLAUSES = ['EdgesCancel', 'Volume', 'Outward', 'ClosedArea', 'FarCapAbsent', 'NotEmpty']
SCALE = 4096


def poly(G, a, steps):
    a = np.array(a, dtype=float)
    p = G.Path.line(a, a + steps[0])
    for s in steps[1:]:
        p = p.line_to(p.endpoint() + s)
    return p


def make(G, q):
    """(shell, far cap or None, chart, tolerance scale)"""
    at = np.array(q['at'], dtype=float)
    close = lambda f, *a: f(*a) if q['enclose'] else f(*a, enclose=False)
    if q['kind'] == 'box':
        return G.Surface.box(list(at), list(at + q['w'])), None, None
    if q['kind'] == 'prism':
        def M(v):
            out = [0., 0., 0.]
            for i in range(3):
                out[q['perm'][i] - 1] = float(q['sign'][i] * v[i])
            return np.array(out)
        p, qq, r = ([M(s) for s in q[k]] for k in 'pqr')
        path = poly(G, at, p)
        base = path.extrude(qq[0]) if len(qq) == 1 else path.extrude_by_path(poly(G, [0., 0., 0.], qq))
        shell = close(base.extrude_boundary, r[0]) if len(r) == 1 else close(base.extrude_boundary_by_path, poly(G, [1., 2., 3.], r))
        d = sum(r)
        return shell, base.move(dx=float(d[0]), dy=float(d[1]), dz=float(d[2])), None
    ax = q['axis'] - 1
    rad_ax = {2: 0, 0: 1, 1: 2}[ax]                # radius along this coordinate
    oth = 3 - ax - rad_ax
    ang = q['ang'] * math.pi / 8
    R = 'xyz'[ax]
    if q['kind'] == 'revolve':
        def M(v):
            out = np.zeros(3)
            out[rad_ax], out[ax] = v[0], v[1]
            return out
        p, qq = ([M(s) for s in q[k]] for k in 'pq')
        a0 = M([q['r0'], q['at'][0]])
        path = poly(G, a0, p)
        base = path.extrude(qq[0]) if len(qq) == 1 else path.extrude_by_path(poly(G, [0., 0., 0.], qq))
        f = getattr(base, 'revolve_boundary_' + R)
        shell = f(angle=ang) if q['enclose'] else f(angle=ang, enclose=False)
        def chart(v, w):     # difference w - v in (radius, angle, height)
            rv, rw = np.hypot(v[rad_ax], v[oth]), np.hypot(w[rad_ax], w[oth])
            d = math.atan2(w[oth], w[rad_ax]) - math.atan2(v[oth], v[rad_ax])
            return [rw - rv, (d + math.pi) % (2 * math.pi) - math.pi, w[ax] - v[ax]]
        return shell, base.rotate(**{'R' + R: ang}), chart
    if q['kind'] == 'disk':
        i, j = [k for k in range(3) if k != ax]
        base = [G.Surface.disk_yz, G.Surface.disk_xz, G.Surface.disk_xy][ax](at[0], at[1], float(q['rad']))
        v = np.zeros(3)
        v[ax], v[i], v[j] = q['w'][2], q['w'][0] / 2, q['at'][2] / 2
        shell = close(base.extrude_boundary, list(v))
        def chart(a, b):
            def pol(x):
                y = x - x[ax] / v[ax] * v
                return np.hypot(y[i] - at[0], y[j] - at[1]), math.atan2(y[j] - at[1], y[i] - at[0]), x[ax]
            (ra, fa, na), (rb, fb, nb) = pol(a), pol(b)
            if ra < 1e-9:
                return list(b - a)
            d = 0. if rb < 1e-9 else (fb - fa + math.pi) % (2 * math.pi) - math.pi
            return [rb - ra, d, nb - na]
        return shell, base.move(dx=float(v[0]), dy=float(v[1]), dz=float(v[2])), chart
    if q['kind'] == 'torus':
        # a disk in a half plane through the axis: its centre is at the distance rad + r0 from it
        c = np.zeros(3)
        c[rad_ax] = q['rad'] + q['r0']
        n = oth                                       # normal of the disk
        i, j = [k for k in range(3) if k != n]
        base = [G.Surface.disk_yz, G.Surface.disk_xz, G.Surface.disk_xy][n](c[i], c[j], float(q['rad']))
        f = getattr(base, 'revolve_boundary_' + R)
        return (f(angle=ang) if q['enclose'] else f(angle=ang, enclose=False)), base.rotate(**{'R' + R: ang}), False
    raise core.MachineryError(q['kind'])


def merged(pts):
    """Number of the first point at (nearly) the same position."""
    keys, first = {}, []
    for k, p in enumerate(np.rint(pts * 1e7).astype(np.int64)):
        hit = None
        for dx in (0, -1, 1):
            for dy in (0, -1, 1):
                for dz in (0, -1, 1):
                    hit = keys.get((p[0] + dx, p[1] + dy, p[2] + dz), hit)
        if hit is None:
            keys[tuple(p)] = hit = k
        first.append(hit)
    return np.array(first)


def stars(pts, tris, chart):
    same = merged(pts)
    out, inc = {}, {}
    for t in tris:
        t = same[t]
        if len(set(t.tolist())) < 3:
            continue
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            d = chart(pts[a], pts[b]) if chart else pts[b] - pts[a]
            e = chart(pts[b], pts[a]) if chart else pts[a] - pts[b]
            out.setdefault(int(a), []).append([int(round(x * SCALE)) for x in d])
            inc.setdefault(int(b), []).append([int(round(x * SCALE)) for x in e])
    return [dict(out=out.get(v, []), inc=inc.get(v, [])) for v in sorted(set(out) | set(inc))]


def vector_area(m):
    p = np.asarray(m.points)[np.asarray(m.triangles).astype(int)]
    return np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]).sum(axis=0) / 2


def record(ctx, G, q):
    shell, cap, chart = make(G, q)
    curved = q['kind'] in ('disk', 'torus', 'revolve')
    kw = {}
    if curved:
        kw['mesh_size'] = (q['rad'] * .4 if q['kind'] != 'revolve' else .75)
    elif q['sized']:
        kw['mesh_size'] = .35 + q['ms'] / 8
    else:
        kw['mesh_size_factor'] = q['ms'] / 8
    opened = far = np.zeros(3)
    if not q['enclose'] and cap is not None:
        opened, far = vector_area(shell.mesh(name='s', **kw)), vector_area(cap.mesh(name='s', **kw))
        shell = shell + cap
    if q['named'] == 1:
        shell.name = 'shell'
    else:
        kw['name'] = 'shell'
    m = shell.mesh(**kw)
    pts, tris = np.asarray(m.points), np.asarray(m.triangles).astype(int)
    if sorted(int(i) for i in m.physical_to_triangles.get('shell', [])) != list(range(len(tris))):
        raise core.Violation('Named', f'{q}')
    c = pts.mean(axis=0) + [.31, -.17, .23]
    t = pts[tris] - c
    vol = float(np.einsum('ij,ij->i', t[:, 0], np.cross(t[:, 1], t[:, 2])).sum() / 6)
    return dict(req=dict(vol=q['vol'], enclose=q['enclose'] or cap is None), exact=q['exact'], chart=chart is not False, stars=stars(pts, tris, chart or None) if chart is not False else [dict(out=[], inc=[])] * 4, vol=int(round(vol * 1000)),
                **{k: [int(round(x * 1000)) for x in v] for k, v in (('area', vector_area(m)), ('opened', opened), ('cap', far))}, atol=int(.12 * 1000 * q['rad'] ** 2) if q['kind'] in ('disk', 'torus') else 400 if curved else 2)


def run(ctx):
    import traceon.geometry as G
    const = dict(Sim=False, GenN=1, TraceMode=False)
    core.design(ctx, 'Shell', 'DesignSpec', const, ['DesignClosed', 'DesignVolume', 'OnlyTheCapIsAbsent'], heap='6g', timeout=1500)
    reqs = core.generate(ctx, 'Shell', 'GenSpec', dict(const, GenN=150 if ctx.quick else 2000), 1, 1, invariants=())[0]
    traces, names = [], []
    for q in reqs:
        ctx.step(q)
        try:
            traces.append(record(ctx, G, q))
            names.append(q)
        except core.Violation as v:
            ctx.violation(v.clause, f'{q}: {v.detail}', q)
        ctx.count('shells ' + q['kind'])
        ctx.sample(q)
    ctx.count('vertices', sum(len(t['stars']) for t in traces))
    for k in range(0, len(traces), 300):
        core.accept(ctx, 'Shell', traces[k:k + 300], dict(const, TraceMode=True), CLAUSES, events=lambda t: t['stars'], names=names[k:k + 300], what='shell', heap='8g', timeout=1500)
    ctx.assumptions += ['edges of curved rims are compared in cylindrical coordinates', 'volumes of curved shells within 6%, of flat ones within 1e-5']
