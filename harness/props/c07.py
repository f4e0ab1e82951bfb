"""C07: meshes of surfaces, recorded in the parameter plane and validated against SurfaceMesh.tla."""
import math
import numpy as np
import core

CLAUSES = ['NoOverlap', 'NoHole', 'OnSurface', 'CornerLines', 'WithinSize', 'Named', 'CoversAll']
W, S = 16384, 10000


class Recorder:
    """A surface function that remembers where it was evaluated."""

    def __init__(self, fun):
        self.fun, self.uv, self.pts = fun, [], []

    def __call__(self, u, v):
        p = np.array(self.fun(u, v), dtype=float)
        self.uv.append((float(u), float(v)))
        self.pts.append(p.copy())
        return p


def make(G, q):
    l1, l2 = q['l1'] / 2, q['l2'] / 2
    c1, c2 = [c / 16 * l1 for c in q['c1']], [c / 16 * l2 for c in q['c2']]
    if q['rep'] == 1 and c1:
        c1 = sorted(c1 + [c1[0]])
    if q['rep'] == 2 and c2:
        c2 = [0.] + c2
    if q['rep'] == 3 and c2:
        c2 = c2 + [l2]
    k = q['shape']
    if k == 'flat':
        return G.Surface(lambda u, v: np.array([u, v, 0.]), l1, l2, c1, c2)
    if k == 'graph':
        return G.Surface(lambda u, v: np.array([u, v, .4 * math.sin(2 * u) * math.cos(v) + .1 * u * v]), l1, l2, c1, c2)
    a = lambda *x: [float(t) for t in x]
    if k == 'revolve':
        p = G.Path.line(a(1, 0, 0), a(1 + l1 / 2, 0, 0)).line_to(a(1 + l1, 0, l1 / 3))
        if q['l2'] % 2:
            p = p.arc_to(a(1 + l1, 0, l1 / 3 + 1), a(2 + l1, 0, l1 / 3 + 1))
        return p.revolve_z(angle=.4 + q['l2'] / 3)
    if k == 'sweep':
        p = G.Path.line(a(0, 0, 0), a(l1, 0, 0)).line_to(a(l1 * 1.5, 0, l1))
        return p.extrude(a(.3, l2, .2)) if q['l2'] % 2 else p.extrude_by_path(G.Path.line(a(0, 0, 0), a(0, l2 / 2, 0)).line_to(a(0, l2, l2 / 4)))
    if k == 'span':
        return G.Surface.spanned_by_paths(G.Path.line(a(0, 0, 0), a(l1, 0, 0)).line_to(a(l1 * 2, 0, l1)), G.Path.line(a(0, l2, 0), a(l1 * .5, l2, 1)).line_to(a(l1 * 2, l2 * 2, 1)))
    if k == 'coons':
        return G.Surface.from_boundary_paths(G.Path.line(a(0, 0, 0), a(l1, 0, 0)).line_to(a(l1 * 2, 0, 1)), G.Path.line(a(l1 * 2, 0, 1), a(l1 * 2, l2, 0)),
                                             G.Path.line(a(l1 * 2, l2, 0), a(0, l2, .5)), G.Path.line(a(0, l2, .5), a(-.2, l2 / 2, .3)).line_to(a(0, 0, 0)))
    raise core.MachineryError(k)


def record(ctx, G, q):
    real = make(G, q)
    rec = Recorder(real)
    L1, L2 = float(real.path_length1), float(real.path_length2)
    s = G.Surface(rec, real.path_length1, real.path_length2, list(real.breakpoints1), list(real.breakpoints2))
    kw, size, lim = {}, q['size'], None
    if size in ('step', 'smooth') and q['shape'] not in ('flat', 'graph'):
        size = 'constant'
    big = max(L1, L2) * q['ms'] / 16
    small = max(L1, L2) * q['small'] / 64
    if size == 'constant':
        ms = max(min(big, small * 2), math.sqrt(L1 * L2) / 14)
        kw['mesh_size'] = ms
        lim = lambda p: ms
    elif size == 'factor':
        kw['mesh_size_factor'] = q['factor'] if q['factor'] < 4 else q['factor'] / 2.5
        lim = lambda p: min(L1, L2) / 4 / math.sqrt(kw['mesh_size_factor'])
    elif size == 'default':
        lim = lambda p: min(L1, L2) / 4
    elif size == 'step':
        # quads never straddle a boundary between regions: it is a grid line of corners or at a quarter of the side
        cx = [b for b in real.breakpoints1 if 0 < b < L1][:1] or [L1 * q['cut'] / 4]
        cy = [b for b in real.breakpoints2 if 0 < b < L2][:1] or [L2 * q['cut'] / 4]
        small = max(small, max(L1, L2) / 20)
        along = q['along']
        f = lambda x, y, z: small if (along == 2 or x < cx[0]) and (along == 1 or y < cy[0]) else small + big
        kw['mesh_size'] = f
        lim = lambda p: f(*p.mean(axis=0))
    else:
        x0, y0 = L1 * q['cut'] / 4, L2 * q['along'] / 4
        small = max(small, max(L1, L2) / 40)
        f = lambda x, y, z: small / 2 + .25 * math.hypot(x - x0, y - y0)
        kw['mesh_size'] = f
        lim = lambda p: max(f(*v) for v in p) / (1 - .25 / math.sqrt(2))
    name = None
    if q['named']:
        if q['own']:
            s.name = name = 'own'
        else:
            kw['name'] = name = 'given'
            s.name = 'other' if q['rep'] == 4 else None
    if not q['ens']:
        kw['ensure_outward_normals'] = False
    m = s.mesh(**kw)
    pts, tris = np.asarray(m.points), np.asarray(m.triangles).astype(int)
    if len(np.asarray(m.lines)) or m.physical_to_lines:
        raise core.Violation('Kind', 'a surface mesh with lines')
    if len(tris) > 6000:
        raise core.Violation('WithinSize', f'{len(tris)} triangles')
    rp, ruv = np.array(rec.pts), np.array(rec.uv)
    uv, on = np.zeros((len(pts), 2)), []
    for i, p in enumerate(pts):
        d = np.abs(rp - p).max(axis=1)
        k = int(d.argmin())
        uv[i] = ruv[k]
        on.append(bool(d[k] <= 1e-6 * max(1., L1, L2)))
    ints = np.rint(uv / [L1, L2] * W).astype(int)
    groups = {}
    for k, v in m.physical_to_triangles.items():
        for i in v:
            groups.setdefault(int(i), []).append(k)
    edge, out = {}, []
    area = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
    vs = []
    for t in tris:
        a = area(*ints[t])
        vs.append([int(t[0]), int(t[2]), int(t[1])] if a < 0 else [int(x) for x in t])
    for n, v in enumerate(vs):
        for i in range(3):
            edge.setdefault((v[i], v[(i + 1) % 3]), n + 1)
    for n, v in enumerate(vs):
        ln = []
        for i in range(3):
            a, b = v[i], v[(i + 1) % 3]
            along = np.abs(ints[a] - ints[b]).min() <= 1
            ln.append(int(np.linalg.norm(pts[a] - pts[b]) * S) if along else 0)
        out.append(dict(v=[x + 1 for x in v], nb=[edge.get((v[(i + 1) % 3], v[i]), 0) for i in range(3)], len=ln, lim=int(lim(pts[v]) * S * (1 + 1e-9)) + 1,
                        group=sorted(groups.get(n, []))))
    line = lambda bs, L: [int(round(float(b) / L * W)) for b in bs]
    return dict(pts=ints.tolist(), on=on, lines1=line(real.breakpoints1, L1), lines2=line(real.breakpoints2, L2), tris=out, name=[name] if name else [])


def run(ctx):
    import traceon.geometry as G
    const = dict(GX=4, GY=4, Lines='{}', GenN=1, TraceMode=False)
    inv = ['QuadsTile', 'DesignConforming', 'LinesKept']
    core.design(ctx, 'SurfaceMesh', 'DesignSpec', dict(const, GY=2, Lines='{2}'), inv, heap='6g')
    core.design(ctx, 'SurfaceMesh', 'DesignSpec', const if not ctx.quick else dict(const, GX=4, GY=2), inv, heap='6g', timeout=1500)
    if not ctx.quick:
        core.design(ctx, 'SurfaceMesh', 'DesignSpec', dict(const, GX=6, GY=2, Lines='{2, 4}'), inv, heap='6g', timeout=1500)
    reqs = core.generate(ctx, 'SurfaceMesh', 'GenSpec', dict(const, GenN=260 if ctx.quick else 3000), 1, 1, invariants=())[0]
    traces, names = [], []
    for q in reqs:
        ctx.step(q)
        try:
            t = record(ctx, G, q)
            traces.append(t)
            names.append(q)
            ctx.count('triangles', len(t['tris']))
        except core.Violation as v:
            ctx.violation(v.clause, f'{q}: {v.detail}', q)
        ctx.count('meshes ' + q['shape'] + ' ' + q['size'])
        ctx.sample(q)
    for k in range(0, len(traces), 400):
        core.accept(ctx, 'SurfaceMesh', traces[k:k + 400], dict(const, TraceMode=True), CLAUSES, events=lambda t: t['tris'], names=names[k:k + 400], what='mesh of', heap='8g', timeout=1500)
    ctx.assumptions += ['parameters are recorded to 1/16384 of the side', 'the parameters of a vertex are those at which the surface was evaluated there; surfaces used are injective',
                        'step functions of the mesh size change at grid lines or at quarters of the side']
