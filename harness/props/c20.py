"""C20: trajectories of the real tracer recorded as runs of entries and validated with Tracer.tla."""
import numpy as np
import core
from props import flight, scenes

CLAUSES = ['StartsAtStart', 'EqualLength', 'Increasing', 'NoneMissing', 'NoGap', 'InsideBefore', 'EndsOutside', 'Count']
STEP = .01


def record(times, pos, p0, v0, bounds, exit=-1, tol=20):
    times, pos, b = np.asarray(times), np.asarray(pos), np.array(bounds, dtype=float)
    n = min(len(times), len(pos))
    inside = np.all((b[:, 0] <= pos[:, :3]) & (pos[:, :3] <= b[:, 1]), axis=1)
    start = bool(n and times[0] == 0. and np.array_equal(pos[0, :3], np.asarray(p0, dtype=float)) and np.allclose(pos[0, 3:], v0, rtol=1e-9, atol=0.))
    vmin = np.linalg.norm(pos[:, 3:], axis=1).min() if n else 1.
    dt = np.diff(times[:n]) / (STEP / vmin) * 1000
    # rounded up, so that positive stays positive; a little slack keeps equal steps equal
    dt = np.clip(np.where(dt > 0, np.ceil(dt - 1e-4), np.floor(dt)), -2e9, 2e9)
    gap = np.abs(np.diff(pos[:n, :3], axis=0) - np.diff(times[:n])[:, None] * (pos[1:n, 3:] + pos[:n - 1, 3:]) / 2).max(axis=1, initial=0.)
    gap = np.clip(np.ceil(gap * 1e6), 0, 2e9)
    if not (np.isfinite(dt).all() and np.isfinite(gap).all()):
        raise core.Violation('Finite', 'the trajectory contains numbers that are not finite')
    ev = [dict(dt=0, inside=bool(inside[0]), gap=0, c=1)] if n else []
    keys = np.stack([dt, inside[1:n], gap], axis=1)
    if len(keys):
        new = np.flatnonzero(np.any(keys[1:] != keys[:-1], axis=1)) + 1
        for a, z in zip(np.concatenate([[0], new]), np.concatenate([new, [len(keys)]])):
            ev.append(dict(dt=int(keys[a, 0]), inside=bool(keys[a, 1]), gap=int(keys[a, 2]), c=int(z - a)))
    return dict(times=len(times), positions=len(pos), start=start, exit=exit, tol=tol, ev=ev)


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.interpolation as I, traceon.tracing as T, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    core.design(ctx, 'Tracer', 'Spec', dict(MaxB=6 if ctx.quick else 9, MaxL=20 if ctx.quick else 40, TraceMode=False), ['Seamless', 'Complete', 'Bounded'], properties=['Terminates'])
    rng = np.random.default_rng(ctx.seed)
    traces, names = [], []
    fields = {}
    for sym, kind in (('radial', 'voltage'), ('radial', 'current'), ('3d', 'voltage')):
        fields[sym, kind] = flight.coarse(G, E, S, sym, kind)
    axial = I.FieldRadialAxial(fields['radial', 'voltage'], -20., 20., 60)
    axial_mag = I.FieldRadialAxial(fields['radial', 'current'], -20., 20., 60)

    def fly(field, p0, d, eV, bounds, name, exit=-1, tol=20, **kw):
        d = np.array(d, dtype=float)
        ctx.step(dict(flight=name, start=[float(x) for x in p0], direction=d.tolist(), eV=float(eV), bounds=np.array(bounds).tolist()))
        v = T.velocity_vec(eV, d)
        before = np.array(p0, copy=True) if isinstance(p0, np.ndarray) else None
        given = np.array(bounds, dtype=float)
        tracer = field.get_tracer(given if isinstance(bounds, np.ndarray) else bounds)
        given[:] = 0.           # the caller's array is his own
        t, p = tracer(p0, v, **kw)
        t, p = np.array(t), np.array(p)
        if len(t) < 3000 and rng.integers(3) == 0:
            # the same tracer serves many particles
            u = T.velocity_vec(1.3 * eV, d[::-1])
            tracer(np.array(bounds, dtype=float).clip(-1e6, 1e6).mean(axis=1), u, **kw) if 'in field' in name else None
            t2, p2 = tracer(p0, v, **kw)
            if not (np.array_equal(t, t2) and np.array_equal(p, p2)):
                raise core.Violation('Repeatable', f'{name} from {list(p0)} direction {d.tolist()} {eV} eV: the same tracer gives another trajectory the second time, {len(t)} and {len(t2)} entries')
            ctx.count('repeated')
        if before is not None and not np.array_equal(before, p0):
            raise core.Violation('OperandsUnchanged', f'{name}: the starting position given by the user was changed to {p0}')
        traces.append(record(t, p, p0, flight.speed(eV) * d / np.linalg.norm(d), bounds, exit, tol))
        names.append(f'{name} from {list(p0)} direction {d.tolist()} {eV} eV in {np.array(bounds).tolist()}')
        ctx.count(name)
        return t, p

    BLOCK = 100000
    # Without a field: the field is restricted to a far away box, or the interpolation ends before
    far = {}
    for k in fields:
        far[k] = fields[k] * 1.
        far[k].set_bounds([[500., 501.], [500., 501.], [500., 501.]])
    exits = [0, 1, 2, 3, 500, 4321]
    exits += [BLOCK * k + d for k in (1, 2) for d in (-3, -2, -1, 0, 1, 2)] + [3 * BLOCK - 4, 3 * BLOCK - 3, 3 * BLOCK - 2]
    if ctx.quick:
        # joining repeats an entry per block, so full blocks end at 1e5 - 1, 2e5 - 2, ...
        pick = [BLOCK - 2, BLOCK - 1, BLOCK, 2 * BLOCK - 3, 2 * BLOCK - 2, 2 * BLOCK - 1, 2 * BLOCK]
        exits = exits[:6] + pick
    for i, x in enumerate(exits):
        ways = list(far.items()) + [('axial', axial)]
        for j, (k, f) in enumerate(ways):
            if x > 10000 and ctx.quick and j != i % len(ways):
                continue
            ax, s = int(rng.integers(3)) if k != 'axial' else 2, 1 - 2 * int(rng.integers(2))
            d = np.zeros(3)
            d[ax] = s
            start = rng.uniform(-2, 2, 3)
            if k == 'axial':
                start[2] = s * 25.       # flying away from the interpolated interval
            elif i % 3 == 1:             # far from the origin, as in geometries in smaller units
                start += 10 ** rng.uniform(3, 5) * rng.choice([-1., 1.], 3)
                ctx.count('flights far from the origin')
            b = np.stack([start - 7., start + 7.], axis=1)
            edge = start[ax] + s * (x - .5) * STEP
            b[ax] = sorted([edge, start[ax] - s * 3.]) if x else sorted([start[ax] - s * .3, start[ax] - s * 5.])
            if (i + j) % 4 == 3:         # no bounds on the sides
                b[(ax + 1) % 3], b[(ax + 2) % 3] = [-np.inf, np.inf], [b[(ax + 2) % 3][0], np.inf]
                ctx.count('flights without bounds on the sides')
            name = f'{k[0] + " " + k[1] if k != "axial" else k} without field'
            fly(f, start if i % 2 else start.tolist(), d, float(rng.choice([1., 100., 3e4])), b if j % 2 else b.tolist(), name, exit=x, tol=1)
    # At the bounds: starting on one counts as inside
    for k, f in far.items():
        b = [[0, 1.005], [-1, 1], [-2, 2]] if k[0] == "3d" else [[-1, 0], [-1, 1], [0, 2]]
        fly(f, np.array([0., 0., 0.]), [1., 0., 0.], 10., np.array(b) if k[0] == "3d" else b, "on the bounds", exit=101 if k[0] == "3d" else 1, tol=1)
    # In fields, mirrored, deflected, starting outside, and with many steps
    for n in range(150 if ctx.quick else 300):
        k = [('radial', 'voltage'), ('radial', 'current'), ('3d', 'voltage'), 'axial', 'axial_mag'][n % 5]
        f = axial if k == 'axial' else axial_mag if k == 'axial_mag' else fields[k]
        eV = float(10 ** rng.uniform(1.3, 3))   # more than any potential, so that no particle is captured
        p0 = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-6, 6)])
        d = np.array([rng.normal(), rng.normal(), 3 * rng.normal()]) if n % 3 else np.array([0., 0., 1.])
        bounds = [[-1.5, 1.5], [-1.5, 1.5], [-7, 7]] if n % 7 else [[-.5, .5], [-.5, .5], [-1, 1]]
        fly(f, p0, d, eV, bounds, f'{k if isinstance(k, str) else k[0] + " " + k[1]} in field', atol=float(rng.choice([1e-6, 1e-8, 1e-10, 1e-12])))
    # Long flights in a field: a particle on a helix along a strong magnetic field, and very small steps
    strong = axial_mag * 1e6
    for n in range(3 if ctx.quick else 6):
        p0 = np.array([.1 * n, .3, -12.])
        d = [np.array([1., .2, .03]), np.array([.3, 1., .015]), np.array([1., 0., .06])][n % 3]
        t, p = fly([strong, axial_mag * 3e6, axial_mag * 5e6][n % 3], p0, d, 50., [[-3., 3.], [-3., 3.], [-15., 15.]], 'helix', tol=40, atol=[1e-12, 1e-11, 1e-10][n % 3])
        ctx.count('helix entries', len(t))
    core.accept(ctx, 'Tracer', traces, dict(MaxB=2, MaxL=0, TraceMode=True), CLAUSES, spec='TraceInit /\\ [][TraceNext]_vars', events=lambda t: t['ev'], names=names, what='')
    ctx.assumptions += ['gaps up to 2e-5 mm (4e-5 on the helix) between a step and the mean of the velocities at both ends']
