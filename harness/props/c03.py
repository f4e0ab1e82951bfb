"""C03: meshes of paths, recorded as a walk along the path and validated against PathMesh.tla."""
import math
import numpy as np
import core

CLAUSES = ['NoGapNoOverlap', 'Forward', 'CornersAreVertices', 'NotTooLong', 'EnoughElements', 'ReachesTheEnd', 'VerticesOnPath', 'ExtraPoints', 'SameAsLinear', 'Average', 'Named']
TICKS = 1000000


class Shape:
    """A real path with a monotone function g of the point (angle for closed curves) that reveals the distance."""

    def __init__(self, path, g, closed=False, offset=0., corners=None):
        self.corners = corners
        self.path, self.g, self.closed, self.L, self.offset = path, g, closed, float(path.path_length), offset
        t = np.linspace(0, self.L, 257)
        v = [g(np.asarray(path(x))) for x in t]
        self.v = np.unwrap(v) if closed else np.array(v)
        self.t = t
        self.sign = 1. if self.v[-1] > self.v[0] else -1.
        if not np.all(np.diff(self.v) * self.sign > 0):
            raise core.Violation('PathItself', f'the path does not progress monotonically: {self.v[:5]}...')

    def near(self, val, ref):
        return val + 2 * math.pi * round((ref - val) / (2 * math.pi)) if self.closed else val

    def distance(self, p):
        """Distance along the path of the point p, or None when p is not on the path."""
        w0 = self.g(p)
        best = None
        for w in ([w0 + 2 * math.pi * k for k in range(-2, 3)] if self.closed else [w0]):
            lo, hi = self.v[0] * self.sign, self.v[-1] * self.sign
            x = w * self.sign
            if not (lo - 1e-6 <= x <= hi + 1e-6):
                continue
            x = min(max(x, lo), hi)
            i = min(max(int(np.searchsorted(self.v * self.sign, x)) - 1, 0), len(self.t) - 2)
            a, b = self.t[i], self.t[i + 1]
            for _ in range(40):
                m = .5 * (a + b)
                gm = self.near(self.g(np.asarray(self.path(m))), w) * self.sign
                a, b = (m, b) if gm < x else (a, m)
            d = np.linalg.norm(np.asarray(self.path(.5 * (a + b))) - p)
            if best is None or d < best[0] - 1e-12:
                best = (d, .5 * (a + b))
        return None if best is None or best[0] > 1e-6 * max(1., self.L) else best[1]


def make(G, q):
    """The real path of a request: (path object to mesh, list of shapes, corners)."""
    L = q['L'] / 4
    bs = [b / 4 for b in q['bs']]
    if q['rep'] and bs:
        bs = sorted(bs + [bs[0]])
    x = lambda p: p[0]
    kind = q['shape']
    if kind in ('wave', 'collection'):
        def wave(off):
            return lambda t: np.array([t + off, math.sin(3 * t), math.cos(2 * t)])
        p = G.Path(wave(0.), L, bs)
        if kind == 'wave':
            return p, [Shape(p, x)]
        p2 = G.Path(wave(1000.), L, bs[:1])
        return G.PathCollection([p, p2]), [Shape(p, x), Shape(p2, x, offset=1000.)]
    if kind == 'line':
        p = G.Path.line([0., 1., 0.], [.6 * L, 1., .8 * L])
        p.breakpoints = bs
        return p, [Shape(p, x)]
    if kind == 'circle':
        r = L / (2 * math.pi)
        p = [G.Path.circle_xy, G.Path.circle_xz, G.Path.circle_yz][q['L'] % 3](2., 1., r)
        i, j, c = [(0, 1, (2., 1., 0.)), (0, 2, (2., 0., 1.)), (1, 2, (0., 2., 1.))][q['L'] % 3]
        p.breakpoints = bs
        return p, [Shape(p, lambda v: math.atan2(v[j] - c[j], v[i] - c[i]), closed=True)]
    if kind == 'arc':
        r = L / (math.pi / 2) if not q['rep'] else L / (1.5 * math.pi)
        p = G.Path.arc([0., 0., 1.], [r, 0., 1.], [0., 0., 1. + r], reverse=bool(q['rep']))
        p.breakpoints = bs
        return p, [Shape(p, lambda v: math.atan2(v[2] - 1., v[0]), closed=True)]
    if kind == 'polyline':
        pts, t = [np.zeros(3)], 0.
        d = [np.array([.6, .8, 0]), np.array([.6, 0, .8]), np.array([.6, -.8, 0]), np.array([1., 0, 0])]
        stops = sorted({b for b in bs if 0 < b < L}) + [L]
        for k, s in enumerate(stops):
            pts.append(pts[-1] + (s - t) * d[k % 4])
            t = s
        p = G.Path.line(pts[0], pts[1])
        for r in pts[2:]:
            p = p.line_to(r)
        return p, [Shape(p, x)]
    if kind == 'spline':
        pts = np.array([[k * L / 5, math.sin(k + L), (k % 3) * .5] for k in range(6)])
        p = G.Path.spline_through_points(pts)
        for r in pts:
            if min(np.linalg.norm(np.asarray(p(t)) - r) for t in np.linspace(0, p.path_length, 800)) > 2 * p.path_length / 800 + 1e-3:
                raise core.Violation('PathItself', f'spline does not pass through {r}')
        p.breakpoints = [b / L * float(p.path_length) for b in bs]
        return p, [Shape(p, x)]
    if kind in ('kinked', 'swept'):
        # From a function of u in [0, 1] that does not progress at a constant rate
        stops = sorted({b for b in bs if 0 < b < L})
        if kind == 'kinked':        # straight pieces, each run through in an arbitrary fraction of u
            ts = [0.] + stops + [L]
            w = np.cumsum([0.] + [1 + (3 * k + q['L']) % 7 for k in range(len(stops) + 1)])
            us = [float(u) for u in w / w[-1]]
            d = [np.array([.6, .8, 0]), np.array([.6, 0, .8]), np.array([.6, -.8, 0]), np.array([1., 0, 0])]
            pts = np.cumsum([np.zeros(3)] + [(t1 - t0) * d[k % 4] for k, (t0, t1) in enumerate(zip(ts, ts[1:]))], axis=0)
            f = lambda u, us=us: [float(np.interp(u, us, pts[:, k])) for k in range(3)]
            g, closed, us = x, False, us[1:-1]
        else:                       # three quarters of a circle, faster and faster
            r = L / (1.5 * math.pi)
            f = lambda u: [2. + r * math.cos(.75 * math.pi * (u + u * u)), -r * math.sin(.75 * math.pi * (u + u * u)), 3.]
            us = [(math.sqrt(1 + 8 * t / L) - 1) / 2 for t in stops]
            g, closed = lambda v: math.atan2(v[1], v[0] - 2.), True
        if q['rep'] and us:         # the order does not matter
            us = us[::-1] + us[:1]
        p = G.Path.from_irregular_function(f, breakpoints=us)
        if abs(p.path_length - L) > 1e-6 * L:
            raise core.Violation('PathItself', f'a curve of length {L} gives a path of length {p.path_length}')
        for t, u in zip(sorted(stops), sorted(set(us))):
            if np.linalg.norm(np.asarray(p(t)) - f(u)) > 1e-6 * L:
                raise core.Violation('PathItself', f'at {t} of {L} the path is at {p(t)} and the curve at {f(u)}')
        return p, [Shape(p, g, closed=closed, corners=stops)]
    if kind == 'ellipse':
        a, b = 1. + L / 4, 1. + len(bs)
        p = G.Path.ellipse(a, b)
        return p, [Shape(p, lambda v: math.atan2(v[1] / b, v[0] / a), closed=True)]
    raise core.MachineryError(kind)


def record(ctx, q, obj, shapes, ho):
    ms = q['ms'] / q['msden'] if q['ms'] else None
    f = None if ms else q['f']
    kw = dict(name='wire') if q['named'] and q['own'] else {}
    if q['named'] and not q['own']:
        obj.name = 'wire'
    if not q['ens']:
        kw['ensure_outward_normals'] = False
    mesh = obj.mesh(mesh_size=ms, mesh_size_factor=f, higher_order=ho, **kw)
    lines, points = np.asarray(mesh.lines), np.asarray(mesh.points)
    if len(np.asarray(mesh.triangles)):
        raise core.Violation('Kind', 'a path mesh with triangles')
    if lines.ndim != 2 or lines.shape[1] != (4 if ho else 2):
        raise core.Violation('Kind', f'lines have shape {lines.shape}')
    grp = {k: sorted(int(i) for i in v) for k, v in mesh.physical_to_lines.items()}
    want = {'wire': list(range(len(lines)))} if q['named'] else {}
    # elements per path of the collection, in order
    owner = [0] * len(lines) if len(shapes) == 1 else [int(points[l[0]][0] > 500) for l in lines]
    if owner != sorted(owner):
        raise core.Violation('NoGapNoOverlap', 'elements of the paths of a collection are mixed')
    res = []
    for k, s in enumerate(shapes):
        T = TICKS / s.L
        els = []
        for l in lines[[o == k for o in owner]]:
            d = [s.distance(points[i]) for i in l]
            on = all(x is not None for x in d)
            d = [0. if x is None else x for x in d]
            if s.closed:   # the seam point is both the start and the end of the curve
                prev = max(els[-1]['a'], els[-1]['b']) / T if els else 0.
                if min(d[0], s.L - d[0]) < 1e-6 * s.L and min(d[1], s.L - d[1]) > 1e-6 * s.L:
                    d[0] = 0. if d[1] < s.L / 2 else s.L
                elif min(d[1], s.L - d[1]) < 1e-6 * s.L:
                    d[1] = 0. if d[0] < s.L / 2 and prev < s.L / 3 else s.L
            e = [int(round(x * T)) for x in d]
            els.append(dict(a=e[0], b=e[1], c=e[2] if ho else 0, d=e[3] if ho else 0, on=bool(on), ref=0))
        bs = [int(round(float(b) * T)) for b in (s.path.breakpoints if s.corners is None else s.corners)]
        avg = -1
        if not (s.closed or ho):
            # of the distance to the nearest stop, as a function of the point
            stops = np.array([0.] + [b / TICKS * s.L for b in bs] + [s.L])
            order = np.argsort(s.sign * s.v)
            fun = lambda p: float(np.abs(np.interp(s.sign * s.g(np.asarray(p)), (s.sign * s.v)[order], s.t[order]) - stops).min())
            avg = int(round(s.path.average(fun) / s.L * TICKS))
            ctx.count('averages')
        res.append(dict(avg=avg, req=dict(L=TICKS, bs=sorted(bs), ms=int(math.ceil(ms * T)) if ms else 0, f=int(f or 0), ho=ho, turn=bool(q['named'] and q['ens']), tol=4, named=True, group=bool(grp == want)), els=els, want=str(want)[:60], got=str(grp)[:60]))
    return res


def run(ctx):
    import traceon.geometry as G
    core.design(ctx, 'PathMesh', 'DesignSpec', dict(MaxL=7 if ctx.quick else 9, MaxMs=5, GenN=1, TraceMode=False), CLAUSES, heap='6g')
    reqs = core.generate(ctx, 'PathMesh', 'GenSpec', dict(MaxL=1, MaxMs=1, GenN=500 if ctx.quick else 5000, TraceMode=False), 1, 1, invariants=())[0]
    traces, names = [], []
    for q in reqs:
        ctx.step(q)
        if q['ms'] and q['L'] / 4 * q['msden'] / q['ms'] > 400:
            q['ms'] = q['ms'] * 8
        try:
            obj, shapes = make(G, q)
            lin = record(ctx, q, obj, shapes, False)
            traces += lin
            names += [q] * len(lin)
            if q['ho']:
                high = record(ctx, q, obj, shapes, True)
                for a, b in zip(lin, high):
                    for k, e in enumerate(b['els']):
                        e['ref'] = max(a['els'][k]['a'], a['els'][k]['b']) if k < len(a['els']) else -1
                traces += high
                names += [q] * len(high)
        except core.Violation as v:
            ctx.violation(v.clause, f'{q}: {v.detail}', q)
        ctx.count('meshes ' + q['shape'])
        ctx.sample(q)
    ctx.count('elements', sum(len(t['els']) for t in traces))
    core.accept(ctx, 'PathMesh', traces, dict(MaxL=1, MaxMs=1, GenN=1, TraceMode=True), CLAUSES, events=lambda t: t['els'], names=names, what='mesh of')
    ctx.assumptions += ['distances are recorded to one millionth of the length of the path']
