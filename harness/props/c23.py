"""C23: plane intersections, spec/PlaneIntersection.tla."""
import numpy as np
import core


def refine(p, k):
    """Insert k - 1 samples between every two."""
    if k == 1:
        return p
    s = np.linspace(0., 1., k, endpoint=False)[:, np.newaxis]
    return np.concatenate([a * (1 - s) + b * s for a, b in zip(p[:-1], p[1:])] + [p[-1:]])


def run(ctx):
    import traceon.tracing as T
    const = dict(Sim=False, Emit=False, MaxLen=5 if ctx.quick else 7, SideRange='-2..2', Coord=1)
    core.design(ctx, 'PlaneIntersection', 'Init /\\ [][FALSE]_vars', const, ['ScanIsLast', 'FoundWhenCrossed', 'NoneWhenOneSided', 'FlipKeeps', 'ScaleKeeps', 'UniqueOffPlane', 'OnPlane'])
    rng = np.random.default_rng(ctx.seed)
    todo = []
    for coord, length in ((6, 8), (2, 6), (40, 4), (1, 12)):
        c = dict(Sim=True, Emit=True, MaxLen=length, SideRange='{0}', Coord=coord)
        todo += core.generate(ctx, 'PlaneIntersection', 'InitSim /\\ [][NextSim]_vars', c, num=300 if ctx.quick else 6000, depth=length + 3)

    def call(what, f, *args):
        try:
            return np.asarray(f(*args)), None
        except Exception as e:
            return None, e

    def check(b, got, error, unit, what, pick=slice(None), tol=1e-12):
        if error is not None:
            if not b['none']:
                raise core.Violation('Reported', f'{what}: {type(error).__name__} {error} although the samples change sides: {b["sides"]}')
            if not isinstance(error, Exception):
                raise core.Violation('Reported', f'{what}: {error!r}')
            ctx.count('none')
            return
        want = [np.array(r['num']) / r['den'] * unit for r in b['results']]
        if not want:
            raise core.Violation('NotReported', f'{what}: {got.tolist()} although all samples lie on one side: {b["sides"]}')
        scale = np.abs(np.array(b['pos'])).max() * unit + 1
        if not any(np.shape(got) == np.shape(w[pick]) and np.all(np.abs(got - w[pick]) <= tol * scale[pick] * max(1, np.abs(b['n']).max())) for w in want):
            raise core.Violation('Intersection', f'{what}: {got.tolist()}, expected {[w[pick].tolist() for w in want]}')
        ctx.count('crossing')

    for b in todo:
        n, p0, shift = (np.array(b[k], dtype=float) for k in ('n', 'p0', 'shift'))
        touch = 0 in b['sides']
        for length, speed in ((1., 1.), (rng.choice([1e-3, .1, 100.]), rng.choice([1e-3, 1e7]))):
            unit = np.array([length] * 3 + [speed] * 3)
            for refined in (1,) if touch else (1, int(rng.choice([2, 3, 17, 1000]))):
                if touch and length != 1. and length != 100.:
                    continue        # (samples are on the plane in exact arithmetic only)
                p = refine(np.array(b['pos'], dtype=float) * unit, refined)
                if rng.integers(4) == 0:
                    p = np.asfortranarray(p)
                elif rng.integers(4) == 0:
                    p = np.repeat(p, 2, axis=0)[::2]
                keep = p.copy()
                factors = [1.] if touch else [1., -1., float(rng.choice([1e-6, 1e-3, 3., -1e5]))]
                if touch:
                    factors.append(-1.)
                for k in factors:
                    ctx.step(dict(b, unit=unit.tolist(), refined=refined, factor=k))
                    at = p0 * length + (0 if touch else shift * length * rng.uniform(-2, 2))
                    got, err = call('general', T.plane_intersection, p, at, n * k)
                    check(b, got, err, unit, f'plane through {at.tolist()} normal {(n * k).tolist()} with {np.array(p).tolist() if len(p) < 20 else b["pos"]}', tol=1e-12 if refined == 1 else 1e-9)
                if np.count_nonzero(n) == 1:
                    ax = int(np.flatnonzero(n)[0])
                    c = p0[ax] * length
                    c = int(c) if c == int(c) and rng.integers(2) else c
                    f = [T.yz_plane_intersection, T.xz_plane_intersection, T.xy_plane_intersection][ax]
                    got, err = call('helper', f, p, c)
                    check(b, got, err, unit, f'{f.__name__}({c!r}) with {np.array(p).tolist() if len(p) < 20 else b["pos"]}', tol=1e-12 if refined == 1 else 1e-9)
                    ctx.count('helper')
                    if ax == 0:
                        q = p.copy()
                        q[:, 0] -= c
                        z, err = call('axis', T.axis_intersection, q)
                        check(b, z, err, unit, f'axis_intersection of {np.array(q).tolist() if len(p) < 20 else b["pos"]}', pick=2, tol=1e-12 if refined == 1 else 1e-9)
                        ctx.count('axis')
                if not np.array_equal(p, keep):
                    raise core.Violation('Untouched', 'the trajectory was changed')
        ctx.validated += 1
        ctx.sample(b)
    ctx.assumptions += ['a sample exactly on the plane may be counted with either side']
