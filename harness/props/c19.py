"""C19: interpolations of scenes of AxialInterp.tla, recorded at its probes and validated."""
import numpy as np
import core
from props import scenes

CLAUSES = ['ZeroOutside', 'AtSamples', 'Nearby', 'Continuous', 'Symmetric', 'Gradient', 'AxialGradient', 'Series', 'Derivatives']
M = 8


def smallest_radius(sc):
    r = []
    for p in sc['parts']:
        lo, w = p['lo'], p['w']
        r.append(lo + 2. - .5 * (min(w, 2.) if p['sh'] == 'torus' else w) if p['sh'] in ('torus', 'round coil') else float(lo))
    return min(r)


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.interpolation as I, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    const = dict(Sim=False, Emit=False, TraceMode=False, Kinds='{}', Most=1, Vals='{1}', M=M, MaxN=40, NProbes=0)
    core.design(ctx, 'AxialInterp', 'Init /\\ [][UNCHANGED vars]_vars', const, ['IndexCovers', 'AllIntervals'])
    kinds = '{"fixed", "dielectric", "potential", "current", "magnetizable"}'
    const.update(Sim=True, Emit=True, Kinds=kinds, Most=3, Vals='{-3, -2, -1, 1, 2, 3}', NProbes=14)
    bs = core.generate(ctx, 'AxialInterp', 'InitSim /\\ [][NextSim]_vars', const, num=400 if ctx.quick else 6000, depth=17, parts=4)
    rng = np.random.default_rng(ctx.seed)
    traces, names = [], []
    for b in bs:
        ctx.step(b)
        sc, N = b['scene'], b['n']
        exc = scenes.excitation(E, sc, scenes.mesh(G, sc))
        f = S.solve_direct(exc)
        R = smallest_radius(sc)
        # relative to the first part; the interval need not end at round numbers
        zmin = b['lo'] + 1 / b['den']
        zmax = zmin + b['len'] + (0 if b['den'] == 1 else .3)
        default = N % 13 == 1
        a = I.FieldRadialAxial(f, zmin, zmax) if default else I.FieldRadialAxial(f, zmin, zmax, N)
        if default:
            # the number of samples is the choice of the code; it shows at the places where something is to be exact
            N = len(a.z)
        zs = np.linspace(zmin, zmax, N)
        dz = zs[1] - zs[0]
        for what, is_there in (('electrostatic', f.is_electrostatic()), ('magnetostatic', f.is_magnetostatic())):
            if not is_there:
                continue
            pot, fld = getattr(a, what + '_potential_at_point'), getattr(a, what + '_field_at_point')
            pot0, fld0 = getattr(f, what + '_potential_at_point'), getattr(f, what + '_field_at_point')
            coil = what == 'magnetostatic' and any(n['kind'] == 'current' for n in sc['names'])
            derivs = getattr(f, f'get_{what}_axial_potential_derivatives')

            def at(p, f1, f2, with_coil=False):
                p = np.array(p)
                e = np.asarray(f2(p), dtype=float)
                r = np.hypot(p[0], p[1])
                v = f1(p) + (f.current_potential_axial(float(p[2])) if with_coil else 0.)
                return np.array([v, (e[0] * p[0] + e[1] * p[1]) / r if r else 0., e[2]]), (abs(e[1] * p[0] - e[0] * p[1]) / r if r else np.abs(e[:2]).max())

            def z_of(t):
                if t % M == 0 and 0 <= t // M < N:
                    return float(zs[t // M])
                return float(zmin + t / M * dz)
            raw = []
            for q in b['probes']:
                t, r = q['t'], q['r'] / 100 * R
                if default:
                    # the specification has its probes for 40 samples
                    t = -9 if t < 0 else (N - 1) * M + t - (b["n"] - 1) * M if t > (b["n"] - 1) * M else t * ((N - 1) * M) // ((b["n"] - 1) * M)
                z, k = z_of(t), rng.uniform(0, 7)
                p = [r * np.cos(k), r * np.sin(k), z]
                got, side = at(p, pot, fld)
                want, _ = at(p, pot0, fld0, coil)
                if coil and r:
                    want[0] = got[0]     # coils have a scalar potential on the axis only
                below, above = (at([p[0], p[1], np.nextafter(z, z + s)], pot, fld)[0] for s in (-1, 1))
                turned, side2 = at([-p[1], p[0], z], pot, fld)
                slope = axial = ()
                inside = 0 <= t <= (N - 1) * M
                if inside and r >= .2 * R:
                    h = 1e-3 * r
                    u = np.array([np.cos(k), np.sin(k), 0.])
                    phi = [pot(np.array([0, 0, z]) + (r + s * h) * u) for s in (-2, -1, 1, 2)]
                    slope = [-(8 * (phi[2] - phi[1]) - phi[3] + phi[0]) / (12 * h), got[1]]
                if 0 < t < (N - 1) * M and t % M == 0 and r < .25 * R:
                    h = 1e-3 * dz
                    phi = [pot(np.array([p[0], p[1], z + s * h])) for s in (-2, -1, 1, 2)]
                    axial = [-(8 * (phi[2] - phi[1]) - phi[3] + phi[0]) / (12 * h), got[2]]
                terms, series = (), ()
                if inside and t % M == 0 and r:
                    rr = r * [1., 1., 3., 12.][len(raw) % 4]
                    D = derivs(np.array([z]))[0] * rr ** np.arange(9)
                    v, _ = at([rr * np.cos(k), rr * np.sin(k), z], pot, fld)
                    series = np.array([v[0], v[1] * rr, v[2] * rr])
                    s = max(np.abs(D).max(), np.abs(series).max(), 1e-30)
                    terms, series = D / s * 1e9, series / s * 1e9
                ds = ()
                if inside and q['r'] == 0:
                    h = 2e-3 * R
                    D = derivs(np.array([z - 2 * h, z - h, z, z + h, z + 2 * h]))
                    fd = (8 * (D[3] - D[1]) - D[4] + D[0]) / (12 * h)
                    ds = [(fd[i], D[2][i + 1]) for i in range(D.shape[1] - 1)]
                    # unit: a derivative is of the order of the one before divided by the radius
                    ds = [(x / s, y / s) for i, (x, y) in enumerate(ds) for s in [max(abs(y), max(abs(D[2][:i + 1] * np.array([R ** (j - i - 1.) for j in range(i + 1)]))), 1e-30)]]
                raw.append(dict(t=t, r=q['r'], got=got, want=want, below=below, above=above, turned=turned, side=max(side, side2), slope=slope, axial=axial, derivs=ds, terms=terms, series=series))
            line = [at([0., 0., z], pot0, fld0, coil)[0] for z in np.linspace(zmin, zmax, 9)]
            unit = np.max(np.abs(line), axis=0)
            unit[1] = unit[2] = max(unit[2], unit[0] / (10 * R), 1e-12)
            unit[0] = max(unit[0], 1e-12)
            big = max(np.abs(v['got'] / unit).max() for v in raw)
            evs = []
            q = lambda x: int(np.clip(round(x), -2e9, 2e9)) if np.isfinite(x) else 2000000000
            vec = lambda v: [q(1e8 * x) if abs(x) > 1e-16 else 0 if x == 0 else 1 for x in v / unit]
            if big > 5:
                # series far outside of their range of convergence: only what does not depend on scale is looked at
                raw = [v for v in raw if np.abs(v['got'] / unit).max() <= 5 and np.abs(v['want'] / unit).max() <= 5]
            for v in raw:
                if v['side'] > 1e-9 * max(np.abs(v['got'][1:]).max(), unit[1]):
                    ctx.violation('NoAzimuthal', f'{what} field of {sc} interpolated with {N} samples in [{zmin}, {zmax}] has an azimuthal part {v["side"]} at tick {v["t"]} r={v["r"]}', b)
                e = {k: vec(v[k]) for k in ('got', 'want', 'below', 'above', 'turned')}
                e.update(t=v['t'], r=v['r'], slack=3)
                for k in ('slope', 'axial'):
                    s = max(np.abs(v['got'][1:]).max(), .1 * unit[1])
                    e[k] = [q(1e6 * x / s) for x in v[k]]
                e['terms'], e['series'] = [q(x) for x in v['terms']], [q(x) for x in v['series']]
                e['derivs'] = [[q(1e6 * x), q(1e6 * y)] for x, y in v['derivs']]
                evs.append(e)
                ctx.count('probes ' + what)
            if evs:
                traces.append(dict(n=N, d=int(np.ceil(100 * dz / R)), ev=evs))
                names.append(f'{what} field of {sc} with {N} samples in [{zmin}, {zmax}]')
        ctx.sample(b)
    const.update(Sim=False, Emit=False, TraceMode=True)
    core.accept(ctx, 'AxialInterp', traces, const, CLAUSES, spec='TraceInit /\\ [][TraceNext]_vars', events=lambda t: t['ev'], names=names, what='')
    ctx.assumptions += ['between samples and off the axis up to 0.2 (dz/R)^6 + 10 (r/R)^10 of the largest value']
