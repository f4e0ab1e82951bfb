"""C28: the influence of charged elements on other elements, spec/Influence.tla."""
import numpy as np
import core

AXES = [((0, 1, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0)), ((1, 0, 0), (0, 1, 0))]      # tangents of elements looking along x, y and z
GAUSS = np.polynomial.legendre.leggauss(16)


def nodes(p, q, pieces=4):
    """Points and weights along the way from p to q."""
    p, q = np.array(p, float), np.array(q, float)
    for i in range(pieces):
        a, b = p + (q - p) * i / pieces, p + (q - p) * (i + 1) / pieces
        for t, w in zip(*GAUSS):
            yield (a + b) / 2 + (b - a) / 2 * t, w / 2 * (b - a)


class Space:
    """Triangles and elements that are influenced by them."""
    def __init__(self, src, pot, flux, size=.05):
        self.src, self.pot, self.flux, self.size = src, pot, flux, size

    def solver(self, tri, dielectric):
        import traceon.mesher as M, traceon.excitation as E, traceon.solver as S
        n = len(self.src)
        groups = {'v': np.arange(n if dielectric else len(tri))}
        if dielectric:
            groups['d'] = np.arange(n, len(tri))
        mesh = M.Mesh(points=np.array(tri).reshape(-1, 3), triangles=np.arange(3 * len(tri)).reshape(-1, 3), physical_to_triangles=groups, ensure_outward_normals=False)
        if len(mesh.triangles) != len(tri):
            raise core.Violation('Division', f'{len(tri)} proper triangles became {len(mesh.triangles)} in the mesh')
        e = E.Excitation(mesh, E.Symmetry.THREE_D)
        e.add_voltage(v=1.)
        if dielectric:
            e.add_dielectric(d=3.)
        return S.ElectrostaticSolver(e).get_matrix()

    def matrix(self, pos=lambda x: x, vec=lambda x: x):
        """Influence of the sources on one another, on the potential at points, and on the three components of the field.
        The elements at one point stand in one another's way, so these are different problems."""
        n = len(self.src)
        src = [np.array([pos(np.array(c, float)) for c in t]) for t in self.src]
        at = lambda p, a, b: np.array([pos(np.array(p, float)) + self.size * vec(u[0] * np.array(a, float) + u[1] * np.array(b, float)) for u in ((1, 0), (0, 1), (-1, -1))])
        m = self.solver(src + [at(p, (1, 0, 1), (0, 1, 1)) for p in self.pot], False)
        own, pot = m[:n, :n], m[n:, :n]
        flux = [self.solver(src + [at(p, *a) for p in self.flux], True)[n:, :n] for a in AXES] if self.flux else [np.zeros((0, n))] * 3
        return own, pot, np.stack(flux, axis=1)


class Turned:
    """Lines around the axis and elements that are influenced by them."""
    def __init__(self):
        self.src, self.pot, self.flux = [], [], []

    def matrix(self, size, pos=lambda x: x, flip=1, dielectric=()):
        import traceon.mesher as M, traceon.excitation as E, traceon.solver as S
        def line(p, d):
            p, d = np.array(p, float), np.array(d, float)
            return [p - 3 * d, p - d, p + d, p + 3 * d]
        lines = [np.array(l, float) for l in self.src] + [np.array(line(p, (0, size))) for p in self.pot] + [np.array(line(p, size * np.array(d))) for p, d in self.flux]
        lines = [np.array([[x[0], 0, x[1]] for x in map(pos, l)]) for l in lines]
        k = len(self.src) + len(self.pot)
        diel = [i in dielectric for i in range(k)] + [True] * len(self.flux)
        groups = {n: np.flatnonzero(np.array(diel) == f) for n, f in (('v', False), ('d', True))}
        groups = {n: i for n, i in groups.items() if len(i)}
        el = np.arange(4 * len(lines)).reshape(-1, 4)[:, [0, 3, 1, 2]]
        mesh = M.Mesh(points=np.array(lines).reshape(-1, 3), lines=el, physical_to_lines=groups, ensure_outward_normals=False)
        e = E.Excitation(mesh, E.Symmetry.RADIAL)
        if 'v' in groups:
            e.add_voltage(v=1.)
        if 'd' in groups:
            e.add_dielectric(d=3.)
        return S.ElectrostaticSolver(e).get_matrix()


def same(ctx, clause, got, want, tol, what):
    got, want = np.asarray(got), np.asarray(want)
    bad = ~(np.abs(got - want) <= tol)
    ctx.worst[clause] = max(ctx.worst.get(clause, 0), float(np.nanmax(np.abs(got - want) / tol)) if got.size else 0)
    if np.any(bad):
        i = np.argwhere(bad)[0]
        raise core.Violation(clause, f'{what}: {got[tuple(i)]!r} instead of {want[tuple(i)]!r} (within {np.broadcast_to(tol, got.shape)[tuple(i)]:.2e})')
    ctx.count(clause, max(1, got.size))


def space(ctx, b, rng):
    ctx.step(b)
    w, t = b['whole'], b['tiles']
    size = float(np.abs(np.array(w, float) - np.array(w[0][0])).max())
    clear = [p for p in b['probes'] if not p['touch']]
    s = Space(w + t, [p['p'] for p in b['probes']], [p['p'] for p in clear])
    what = f'{b["kind"]} {w} divided as {t}'
    own, pot, F = s.matrix()
    nw = len(w)
    sharp = np.array([p['sharp'] for p in b['probes']], bool)
    touch = np.array([p['touch'] for p in b['probes']], bool)
    ptol = np.where(touch, 1e-6, np.where(sharp, 1e-8, 1e-6)) * np.abs(pot[:, :nw]).sum(1)
    same(ctx, 'Division', pot[:, nw:].sum(1), pot[:, :nw].sum(1), ptol, 'potential of ' + what + ' at ' + str(s.pot))
    fs = np.array([p['sharp'] for p in clear], bool)
    strength = np.sqrt((F[:, :, :nw] ** 2).sum(1)).sum(1) + np.sqrt((F[:, :, nw:] ** 2).sum(1)).sum(1)
    ftol = np.where(fs, 1e-7, 2e-5)[:, None] * strength[:, None]
    same(ctx, 'Division', F[:, :, nw:].sum(2), F[:, :, :nw].sum(2), ftol, 'field of ' + what + ' at ' + str([p['p'] for p in clear]))
    # An element on itself: the sum over the elements that divide it, at its own centre
    if b['kind'] == 'patch' and own.shape[0] >= 2:
        c = np.mean(w[0], axis=0)
        border = any(np.linalg.norm(np.cross(np.subtract(t_[k - 2], t_[k]), c - np.array(t_[k]))) < 1e-6 for t_ in t for k in range(3))
        if not border:
            same(ctx, 'Self', own[0, nw:].sum(), own[0, 0], 1e-6 * abs(own[0, 0]), 'potential on itself of ' + what)
    # Solid angles
    if b['kind'] == 'shell':
        A = np.array(b['areas'], float)
        A /= np.linalg.norm(A, axis=1)[:, None]
        for p, f, o in zip(clear, F, fs):
            total = sum(f[:, nw + j] @ A[j] for j in range(len(t)))
            same(ctx, 'Shell', total, -1. if p['inside'] else 0., 1e-8 if o else 1e-5, f'field through {what} from {p["p"]}')
            ctx.count('inside' if p['inside'] else 'outside')
    # The potential at a distance is that of the total charge
    # Motion
    m, d, k = np.array(b['motion']['m'], float), np.array(b['motion']['d'], float), 2. ** b['motion']['k']
    perm = rng.permutation(len(s.src))
    s2 = Space([s.src[i] for i in perm], s.pot, s.flux)
    own2, pot2, F2 = s2.matrix(lambda x: k * (m @ x + d), lambda x: k * (m @ x))
    det = np.linalg.det(m)
    same(ctx, 'Motion', pot2 / k, pot[:, perm], np.where(touch, 1e-6, np.where(sharp, 1e-7, 1e-6))[:, None] * np.abs(pot[:, perm]).sum(1)[:, None] / 2, f'potential of {what} moved by {b["motion"]}')
    same(ctx, 'Motion', F2 * det, F[:, :, perm], (np.where(fs, 1e-8, 1e-6)[:, None] * strength[:, None])[:, :, None] + 1e-8, f'field of {what} moved by {b["motion"]}')
    same(ctx, 'Motion', np.diag(own2) / k, np.diag(own)[perm], 1e-8 * np.abs(np.diag(own)[perm]), f'potential on themselves of {what} moved by {b["motion"]}')
    # Routes
    for r in b['routes']:
        ns = list(nodes(r['p'], r['q']))
        _, pot, flux = Space(w + t, [r['p'], r['q']], [p for p, _ in ns], size=1e-3).matrix()
        got = np.einsum('nak,na->k', flux, np.array([v for _, v in ns]))
        drop = pot[0] - pot[1]
        for part in (slice(0, nw), slice(nw, None)):
            same(ctx, 'Route', got[part].sum(), drop[part].sum(), 3e-5 * np.abs(pot[0, part]).sum(), f'field from {r["p"]} to {r["q"]} of {what}')
    ctx.count(b['kind'])
    ctx.count('tiles', len(t))
    ctx.validated += 1


def turned(ctx, b, rng):
    ctx.step(b)
    whole = np.array(b['whole'], float)
    tiles = np.array(b['tiles'], float) / 1296
    k, mot = len(b['probes']), b['motion']
    what = f'line {b["whole"]}'
    s = Turned()
    order = [i - 1 for i in mot['part']]
    parts = [tiles[i][::-1] if mot['back'][j] else tiles[i] for j, i in enumerate(order)]
    s.src = [whole] + parts
    tiny = 1e-6
    probes = [(max(p[0], 3e-6), p[1]) for p in b['probes']]
    s.pot = probes
    s.flux = [(p, d) for p in probes for d in ((0, 1), (-1, 0))]         # normals along r and along z
    M = s.matrix(tiny)
    n = len(s.src)
    pot, flux = M[n:n + k, :n], M[n + k:, :n].reshape(k, 2, n)
    same(ctx, 'Division', pot[:, 1:].sum(1), pot[:, 0], (3e-8 if b['kind'] in ('straight', 'axis') else 1e-6) * np.abs(pot[:, 0]), 'potential of ' + what)
    size = np.sqrt((flux[:, :, 0] ** 2).sum(1))[:, None] + np.abs(flux[:, :, 1:]).sum((1, 2))[:, None]
    same(ctx, 'Division', flux[:, :, 1:].sum(2), flux[:, :, 0], (3e-6 if b['kind'] in ('straight', 'axis') else 3e-5) * size, 'field of ' + what)
    # Onto itself: the middle part has the same centre
    mid = 1 + order.index(1)
    same(ctx, 'Self', M[mid, 1:4].sum(), M[0, 0], 3e-7 * abs(M[0, 0]), 'potential on itself of ' + what)
    D = Turned()
    D.src = s.src
    D.src = [whole] + [tiles[i] for i in order]
    E_ = D.matrix(tiny, dielectric=range(4))
    same(ctx, 'Self', E_[mid, 1:4].sum(), E_[0, 0], 3e-5 * (1 + abs(E_[0, 0])), 'field on itself of ' + what)
    # Motion
    f, sc = mot['mirror'], 2. ** mot['k']
    M2 = s.matrix(tiny, lambda x: sc * np.array([x[0], f * (x[1] + mot['d'])]))
    same(ctx, 'Motion', M2[n:n + k, :n] / sc, pot, 1e-7 * np.abs(pot[:, :1]), f'potential of {what} moved by {mot}')
    same(ctx, 'Motion', M2[n + k:, :n].reshape(k, 2, n) * f, flux, 1e-5 * size[:, :, None], f'field of {what} moved by {mot}')
    same(ctx, 'Motion', np.diag(M2)[:n] / sc, np.diag(M)[:n], 1e-6 * np.abs(np.diag(M)[:n]), f'potential on itself of {what} moved by {mot}')
    for r in b['routes']:
        s3 = Turned()
        s3.src = [whole]
        s3.pot = [r['p'], r['q']]
        ns = list(nodes(r['p'], r['q']))
        s3.flux = [(p, d) for p, _ in ns for d in ((0, 1), (-1, 0))]
        M = s3.matrix(tiny)
        F = M[3:, 0].reshape(-1, 2)
        same(ctx, 'Route', (F * np.array([v for _, v in ns])).sum(), M[1, 0] - M[2, 0], 1e-5 * abs(M[1, 0]), f'field from {r["p"]} to {r["q"]} of {what}')
    ctx.count('line ' + b['kind'])
    ctx.validated += 1


def axis(ctx, b, rng):
    ctx.step(b)
    k = 2. ** b['k']
    s = Turned()
    a, e = b['a'] * k, b['b'] * k
    z = b['z'] * k
    parts = 3
    edges = np.linspace(a, e, parts + 1)
    for lo, hi in zip(edges, edges[1:]):
        l = [[lo + (hi - lo) * i / 3, z] for i in range(4)]
        s.src.append(np.array(l if rng.random() < .5 else l[::-1]))
    p = (3e-6 * k, z + b['side'] * b['h'] * k)
    s.pot = [p]
    s.flux = [(p, (-1, 0)), (p, (0, 1))]
    M = s.matrix(1e-6 * k)
    pot, field = b['pot'][0] / b['pot'][1], b['field'][0] / b['field'][1]
    same(ctx, 'Axis', M[parts, :parts].sum() / k, pot, 1e-7 * pot, f'potential of the plate {b}')
    same(ctx, 'Axis', M[parts + 1, :parts].sum(), b['side'] * field, 1e-6 * field, f'field along the axis of the plate {b}')
    same(ctx, 'Axis', M[parts + 2, :parts].sum(), 0., 1e-6 * field, f'field across the axis of the plate {b}')
    ctx.validated += 1


def different(bs, limit, routes):
    """Behaviours that only differ in their last steps teach little."""
    r = {}
    for b in bs:
        k = str((b['whole'], b['tiles']))
        if k not in r or len(b['routes']) > len(r[k]['routes']):
            r[k] = b
    return [dict(b, routes=b['routes'][:routes]) for b in list(r.values())[:limit]]


def run(ctx):
    import traceon.logging as L
    L.set_log_level(L.LogLevel.ERROR)
    ctx.worst = {}
    import warnings
    warnings.simplefilter('ignore')
    q = ctx.quick
    const = dict(Sim=False, Emit=False, MaxTiles=3 if q else 4, Coord=0, Small=True)
    core.design(ctx, 'Influence', 'Init /\\ [][Next]_vars', const, ['AreaKept', 'SameWay', 'MomentKept', 'Proper', 'VolumeKept'])
    core.design(ctx, 'Influence', 'InitShell /\\ [][FALSE]_vars', const, ['ShellClosed'])
    core.design(ctx, 'Influence', 'InitRing /\\ [][FALSE]_vars', const, ['Weights', 'Nodes', 'Reproduces', 'Rational'])
    rng = np.random.default_rng(ctx.seed)
    c = dict(Sim=True, Emit=True, MaxTiles=9, Coord=20, Small=False)
    todo = core.generate(ctx, 'Influence', 'InitSim /\\ [][NextSim]_vars', c, num=400 if q else 8000, depth=26, parts=4)
    todo += core.generate(ctx, 'Influence', 'InitSim /\\ [][NextSim]_vars', dict(c, MaxTiles=40), num=40 if q else 600, depth=60)
    todo = different(todo, 120 if q else 3000, 1 if q else 2)
    for b in todo:
        space(ctx, b, rng)
        ctx.sample(b)
    lines = core.generate(ctx, 'Influence', 'InitRing /\\ [][NextRing]_vars', c, num=300 if q else 6000, depth=20, parts=2, invariants=('RingDone',))
    for b in different(lines, 150 if q else 3000, 2):
        turned(ctx, b, rng)
        ctx.sample(b)
    for b in core.everything(ctx, 'Influence', 'InitAxis /\\ [][FALSE]_vars', dict(c, Sim=False), 'AxisDone'):
        axis(ctx, b, rng)

