"""C24: foci and initial velocities, spec/Optics.tla."""
import numpy as np
import core


def run(ctx):
    import traceon.focus as F, traceon.tracing as T, traceon.logging as L
    L.set_log_level(L.LogLevel.ERROR)
    const = dict(Sim=False, Emit=False, MaxRays=2 if ctx.quick else 3, Slope=1, Coord=1)
    core.design(ctx, 'Optics', 'Init /\\ [][FALSE]_vars', const, ['Stationary', 'Definite', 'ExactFocus', 'Stretch', 'UnitCircle', 'UnitLength'])
    rng = np.random.default_rng(ctx.seed)
    todo = []
    for rays, slope, coord in ((6, 3, 5), (2, 2, 4), (12, 1, 3), (4, 8, 20)):
        c = dict(Sim=True, Emit=True, MaxRays=rays, Slope=slope, Coord=coord)
        todo += core.generate(ctx, 'Optics', 'InitSim /\\ [][NextSim]_vars', c, num=300 if ctx.quick else 6000, depth=rays + 3)

    def trajectory(p, v, before):
        t = np.concatenate([p, v])
        return np.concatenate([rng.normal(0, 10, (before, 6)), [t]])

    for b in todo:
        want = np.array(b['num']) / b['den']
        scale = max(1., np.abs(want).max(), np.abs([r['p'] for r in b['rays']]).max())
        ts = []
        for r in b['rays']:
            ts.append((np.array(r['p'], float), np.array([r['a'], r['b'], 1.]) * r['vz'], r['before']))
        order = rng.permutation(len(ts))
        turn = np.array([[0., -1., 0.], [1., 0., 0.], [0., 0., 1.]])
        mirror = np.diag([1., 1., -1.])
        thin, thick = 2.**-rng.integers(10, 21), 2.**rng.integers(3, 10)
        narrow, wide = np.diag([thin, thin, 1.]), np.diag([thick, thick, 1.])
        shift = rng.integers(-9, 10, 3).astype(float)
        cases = dict(plain=lambda p, v: (p, v), fast=lambda p, v: (p, v * 3e6), own=lambda p, v: (p, v * rng.choice([1e-3, .5, 2., 1e6])), shifted=lambda p, v: (p + shift, v), turned=lambda p, v: (turn @ p, turn @ v),
                     mirrored=lambda p, v: (mirror @ p, mirror @ v), small=lambda p, v: (p * 1e-3, v), paraxial=lambda p, v: (narrow @ p, narrow @ v), steep=lambda p, v: (wide @ p, wide @ v), along=lambda p, v: (p + float(rng.integers(-4, 5)) * v, v))
        maps = dict(shifted=lambda x: x + shift, turned=lambda x: turn @ x, mirrored=lambda x: mirror @ x, small=lambda x: x * 1e-3, paraxial=lambda x: narrow @ x, steep=lambda x: wide @ x)
        for name, f in cases.items():
            arrays = [trajectory(*f(p, v), k) for p, v, k in (ts[i] for i in order)]
            ctx.step(dict(b, case=name))
            got = np.asarray(F.focus_position(arrays))
            w = maps.get(name, lambda x: x)(want)
            tol = 1e-9 * (scale + np.abs(shift).max()) ** 2 * (1e-3 if name == 'small' else 1)
            # Against a stretch the directions of the rays are known less well, or the height is
            if name == 'paraxial':
                tol = np.array([1e-10, 1e-10, 1e-13 / thin]) * (scale + 1) ** 2 * [1, 1, 100] * [thin * max(1, 1e-4 / thin), thin * max(1, 1e-4 / thin), 1]
            if name == 'steep':
                tol = tol * np.array([thick, thick, 1])
            if got.shape != (3,) or not np.all(np.abs(got - w) <= tol):
                raise core.Violation('Focus', f'{name}: focus {got.tolist()}, expected {w.tolist()} for {b["rays"]}')
            ctx.count('focus ' + b['kind'])
        ctx.validated += 1
        ctx.sample(b)
    # Initial velocities
    c = dict(Sim=False, Emit=True, MaxRays=2, Slope=1, Coord=1)
    vs = core.everything(ctx, 'Optics', 'InitVel /\\ [][FALSE]_vars', c, 'VelDone')
    for b in vs:
        (s, co, h), (sf, cf, hf) = b['t'], b['f']
        theta, phi = np.arctan2(s, co), np.arctan2(sf, cf)
        for eV in (1, 1000, 0.25, float(rng.uniform(1, 3e4)), 30000., 41000):
            turns = 2 * np.pi * int(rng.integers(-1, 2))
            sph, down, up = (np.array(b[k]['num']) / b[k]['den'] * eV for k in ('sph', 'down', 'up'))
            d = np.array(b['sph']['num']) * abs(b['m'])
            calls = [('velocity_vec_spherical', T.velocity_vec_spherical(eV, theta + turns, phi), sph), ('velocity_vec_spherical', T.velocity_vec_spherical(eV, theta, phi + turns), sph),
                     ('velocity_vec_xz_plane', T.velocity_vec_xz_plane(eV, theta), down), ('velocity_vec_xz_plane downward', T.velocity_vec_xz_plane(eV, theta + turns, downward=True), down),
                     ('velocity_vec_xz_plane upward', T.velocity_vec_xz_plane(eV, theta, downward=False), up), ('velocity_vec_xz_plane upward', T.velocity_vec_xz_plane(eV, theta, False), up)]
            for form in (d.tolist(), tuple(int(x) for x in d), d, d.astype(float) * float(rng.choice([1e-6, .3, 1e5]))):
                calls.append(('velocity_vec ' + repr(form), T.velocity_vec(eV, form), sph))
            for what, got, want in calls:
                got = np.asarray(got)
                if got.shape != (3,) or not np.all(np.abs(got - want) <= 1e-13 * eV * 10):
                    raise core.Violation('InitialVelocity', f'{what} with {eV} eV, angles {theta}, {phi}: {got.tolist()}, expected {want.tolist()}')
                ctx.count('velocity')
        ctx.validated += 1
