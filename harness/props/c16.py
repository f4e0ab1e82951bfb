"""C16: walks and regions of Energy.tla in real solved fields, recorded and validated."""
import numpy as np
import core
from props import scenes

CLAUSES = ['Conservative', 'Closed', 'WalksTheGraph', 'Gauss', 'GaussThin', 'AreaOfParts']
THIN = (1e-2, 1e-3, 1e-4, 1e-5)
R = 8.          # lateral distance between nodes
X8, W8 = np.polynomial.legendre.leggauss(8)
X3, W3 = np.polynomial.legendre.leggauss(4)


def node(p, turn):
    """Position of a node; the lateral pattern is rotated so that no walk keeps to the coordinate planes."""
    c, s = np.cos(turn), np.sin(turn)
    x, y = R * p[0], R * p[1]
    return np.array([c * x - s * y, s * x + c * y, scenes.PITCH * p[2] - 1.])


def work(field, p, q):
    n = int(np.ceil(np.linalg.norm(q - p)))
    d = (q - p) / n
    return sum(.5 * w * np.dot(field(p + (i + .5 * (x + 1)) * d), d) for i in range(n) for x, w in zip(X8, W8))


def flux(field, sym, z0, z1):
    """Flux out of a cylinder (radial symmetry) or box around the axis."""
    rad = 9.
    tot = 0.
    if sym == 'radial':
        def at(r, z, k):
            f = field(np.array([r * np.cos(k), r * np.sin(k), z]))
            return np.cos(k) * f[0] + np.sin(k) * f[1], f[2]
        k = 0.
        for i in range(int(rad)):
            for x, w in zip(X8, W8):
                r, k = i + .5 * (x + 1), k + .7
                tot += 2 * np.pi * r * .5 * w * (at(r, z1, k)[1] - at(r, z0, k)[1])
        for i in range(int(round(z1 - z0))):
            for x, w in zip(X8, W8):
                k += .7
                tot += 2 * np.pi * rad * .5 * w * at(rad, z0 + i + .5 * (x + 1), k)[0]
        return tot
    nodes = [(i + .5 * (x + 1), .5 * w) for i in range(int(2 * rad)) for x, w in zip(X3, W3)]
    for a, wa in nodes:
        for b, wb in nodes:
            tot += wa * wb * (field(np.array([a - rad, b - rad, z1]))[2] - field(np.array([a - rad, b - rad, z0]))[2])
        for i in range(0, int(round(z1 - z0)), 2):
            for x, w in zip(X3, W3):
                z = z0 + i + x + 1
                tot += wa * w * (field(np.array([rad, a - rad, z]))[0] - field(np.array([-rad, a - rad, z]))[0] + field(np.array([a - rad, rad, z]))[1] - field(np.array([a - rad, -rad, z]))[1])
    return tot


def thin(field, z, r, k):
    """Flux out of a thin cylinder around the axis, through its side and through its ends, over its cross section."""
    F = [(w, field(np.array([r * np.cos(k), r * np.sin(k), z + .5 * x]))) for x, w in zip(X8, W8)]
    ends = [field(np.array([0., 0., z + s]))[2] for s in (-.5, .5)]
    return sum(w * (f[0] * np.cos(k) + f[1] * np.sin(k)) / r for w, f in F), ends[1] - ends[0], max(map(abs, ends))


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    kinds = '{"fixed", "dielectric", "potential", "current", "magnetizable"}'
    const = dict(Sim=False, Emit=False, TraceMode=False, Kinds='{}', Most=1, Vals='{1}', Len1=5 if ctx.quick else 7)
    core.design(ctx, 'Energy', 'Init /\\ [][Next]_vars', const, ['Winding', 'ValidWalk'], heap='8g', timeout=3000)
    const.update(Sim=True, Emit=True, Kinds=kinds, Most=3, Vals='{-3, -2, -1, 1, 2, 3}', Len1=14)
    bs = core.generate(ctx, 'Energy', 'InitSim /\\ [][NextSim]_vars', const, num=1200 if ctx.quick else 6000, depth=18, parts=4, invariants=['RouteDone', 'ValidWalk'])
    rng = np.random.default_rng(ctx.seed)
    traces, names = [], []
    for n, b in enumerate(bs):
        sc = b['scene']
        ctx.step(b)
        m = scenes.mesh(G, sc)
        exc = scenes.excitation(E, sc, m)
        f = S.solve_direct(exc)
        turn = [0., .3, 1.1][n % 3] if sc['sym'] == '3d' else rng.uniform(0, 6)
        for what, field, pot in (('electric', f.electrostatic_field_at_point, f.electrostatic_potential_at_point), ('magnetic', f.magnetostatic_field_at_point, f.magnetostatic_potential_at_point)):
            if not (f.is_electrostatic() if what == 'electric' else f.is_magnetostatic()):
                continue
            coils = np.zeros(len(sc['parts']))
            if what == 'magnetic':
                for x in sc['names']:
                    if x['kind'] == 'current':
                        # the current is divided over the parts in proportion to their area
                        idx = [i for i, p in enumerate(sc['parts']) if p['nm'] == x['nm']]
                        area = [np.linalg.norm(np.cross(*(t[1:] - t[0])), axis=-1) / 2 for t in m.points[m.triangles[m.physical_to_triangles[x['nm']]]]]
                        z = m.points[m.triangles[m.physical_to_triangles[x['nm']]]].mean(axis=1)[:, 2]
                        part = [sum(a for a, zz in zip(area, z) if 8 * i - 1 < zz < 8 * i + 7) for i in idx]
                        coils[idx] += scenes.number(x['v']) * np.array(part) / sum(part)
            pts = [node(p, turn) for p in b['route']]
            cache, ev = {}, []
            for i, (p, x) in enumerate(zip(b['route'], pts)):
                w = 0.
                if i:
                    key = (tuple(b['route'][i - 1]), tuple(p))
                    if key not in cache:
                        cache[key] = work(field, pts[i - 1], x)
                        cache[key[::-1]] = -cache[key] if rng.integers(2) else work(field, x, pts[i - 1])
                    w = cache[key]
                ev.append((p, w, pot(x)))
            has_current = np.any(coils != 0)
            vals = np.array([[w, u] for _, w, u in ev])
            if not np.isfinite(vals).all():
                ctx.violation('Finite', f'{what} field of {sc} on the walk {b["route"]}: {vals.tolist()}', b)
                continue
            unit = max(np.abs(vals).max(), np.abs(coils).max(), 1e-12) / 1e7
            q = lambda v: int(round(v / unit))
            traces.append(dict(what='walk', scene=dict(sym=sc['sym'], parts=sc['parts']), pot=not has_current, coils=[q(c) for c in coils], tol=30, ev=[dict(p=p, work=q(w), pot=q(u)) for p, w, u in ev]))
            names.append(f'{what} field of {sc}')
            ctx.count(f'{what} walks' + (' with coils' if has_current else ''))
            if sc['sym'] == 'radial':
                # the free planes, half a unit to both sides
                ev = [(k, i, *thin(field, 8. * k - 1, r, turn)) for k in range(len(sc['parts']) + 1) for i, r in enumerate(THIN)]
                top = max(max(e[4] for e in ev), 1e-12)
                keep = [e for e in ev if e[4] > 1e-3 * top]
                if top > 1e-11 and keep:
                    traces.append(dict(what='thin', tol=100, ev=[dict(k=k, r=i + 2, side=int(round(1e5 * a / u)), ends=int(round(1e5 * b / u))) for k, i, a, b, u in keep]))
                    names.append(f'{what} field near the axis of {sc}')
                    ctx.count('thin regions', len(keep))
        if f.is_electrostatic() and (sc['sym'] == 'radial' or n % (3 if ctx.quick else 2) == 0):
            vertices, act = exc.get_electrostatic_active_elements()
            z = vertices.mean(axis=1)[:, 2]
            charges, areas = [], []
            for k, p in enumerate(sc['parts']):
                idx = [int(i) for i in act.get(p['nm'], []) if 8 * k - 1 < z[int(i)] < 8 * k + 7]
                charges.append(float(f.charge_on_elements(idx)) if idx else 0.)
                areas.append(float(f.area_of_elements(idx)) / (np.pi if sc['sym'] == 'radial' else 1.) if idx else -1.)
            K = len(sc['parts'])
            regions = [(lo, hi) for lo in range(1, K + 1) for hi in range(lo, K + 1)]
            if sc['sym'] == '3d':
                regions = [regions[int(rng.integers(len(regions)))]]
            ev = [(lo, hi, flux(f.electrostatic_field_at_point, sc['sym'], 8. * (lo - 1) - 1, 8. * hi - 1)) for lo, hi in regions]
            unit = max(np.abs(charges).max(), max(abs(e[2]) for e in ev), 1e-12) / 1e6
            q = lambda v: int(round(v / unit))
            traces.append(dict(what='flux', scene=dict(sym=sc['sym'], parts=sc['parts']), charges=[q(c) for c in charges], areas=[int(round(1e4 * a)) for a in areas],
                               tol=3 if sc['sym'] == 'radial' else 300, ev=[dict(lo=lo, hi=hi, flux=q(v)) for lo, hi, v in ev]))
            names.append(f'flux of the field of {sc}')
            ctx.count(f'regions {sc["sym"]}', len(ev))
        ctx.sample(b)
    const.update(Sim=False, Emit=False, TraceMode=True)
    core.accept(ctx, 'Energy', traces, const, CLAUSES, spec='TraceInit /\\ [][TraceNext]_vars', events=lambda t: t['ev'], names=names, what='')
    ctx.assumptions += ['routes keep a distance of one unit to the elements (element size 0.75 to 1.5)', 'line integrals by quadrature, equality up to 1e-5 of the largest value']
