"""C18: problems of BoundaryConditions.tla solved and measured at the probes of the specification."""
import numpy as np
import core
from props import scenes

CLAUSES = ['InsideElectrode', 'AtSheet', 'NormalRatio', 'NoNormalField', 'Between', 'UnitConstant']
LETTERS = 'abcdefgh'
KIND = dict(fixed='add_voltage', fun='add_voltage', dielectric='add_dielectric', potential='add_magnetostatic_potential', current='add_current', magnetizable='add_magnetizable')
FAM = dict(fixed='electrostatic', fun='electrostatic', dielectric='electrostatic', potential='magnetostatic', current='magnetostatic', magnetizable='magnetostatic')


def centre(k):
    return 8. * k + 4.


def shape(G, sym, p, k):
    c, r, a, h = centre(k), p['r'] / 10, p['a'] / 10, p['h'] / 10
    P, S, sh = G.Path, G.Surface, p['sh']
    if sym == 'radial':
        return {'ball': lambda: P.arc([0., 0., c], [0., 0., c - a], [a, 0., c]).arc_to([0., 0., c], [0., 0., c + a]),
                'torus': lambda: P.circle_xz(r, c, a),
                'block': lambda: P.rectangle_xz(r - a, r + a, c - h, c + h),
                'disk': lambda: P.line([r - a, 0., c], [r + a, 0., c]),
                'tube': lambda: P.line([r, 0., c - h], [r, 0., c + h]),
                'coil': lambda: S.rectangle_xz(r - a, r + a, c - h, c + h)}[sh]()
    return {'ball': lambda: S.sphere(a).move(dx=r, dz=c),
            'block': lambda: S.box([r - a, -a, c - h], [r + a, a, c + h]),
            'disk': lambda: S.rectangle_xy(r - a, r + a, -a, a).move(dz=c)}[sh]()


def wall(G, sym, n):
    lo, hi = -1., 8. * n + 1
    if sym == 'radial':
        return G.Path.line([0., 0., lo], [9., 0., lo]).line_to([9., 0., hi]).line_to([0., 0., hi])
    return G.Surface.box([-9., -9., lo], [9., 9., hi])


def wall_probes(sym, n):
    lo, hi = -1., 8. * n + 1
    z = [lo + (hi - lo) * t for t in (.3, .5, .7)]
    cap = [([x, 0., lo], [0., 0., 1.]) for x in (2., 5.)] + [([x, 0., hi], [0., 0., -1.]) for x in (2., 5.)]
    side = [([9., 0., t], [-1., 0., 0.]) for t in z]
    if sym == '3d':
        cap = [(np.array(x), np.array(v)) for z, d in ((lo, 1.), (hi, -1.)) for x, v in (([6., 4.5, z], [0., 0., d]), ([2., -6., z], [0., 0., d]))]
        side += [([0., 9., t], [0., -1., 0.]) for t in z] + [([-9., 1., t], [1., 0., 0.]) for t in z]
    return [(np.array(p), np.array(v)) for p, v in cap + side]


def polynomial(c, zc):
    c = [x / 4 for x in c]

    def f(x, y, z):
        z = z - zc
        return c[0] + c[1] * z + c[2] * (2 * z * z - x * x - y * y) + c[3] * x + c[4] * y + c[5] * x * y + c[6] * x * z + c[7] * y * z + c[8] * (x * x - y * y) + c[9] * (x * x + y * y)
    return f


def extrapolate(f, h):
    """Value at zero of a function known at h, 2h and 3h."""
    return 3 * f(h) - 3 * f(2 * h) + f(3 * h)


def linear(f, h):
    return 2 * f(h) - f(2 * h)


def cover(bs, features, count):
    """Choose behaviours which together show as many features as possible, each about as often."""
    seen, left, r = {}, [(b, features(b)) for b in bs], []
    while left and len(r) < count:
        i = max(range(len(left)), key=lambda i: sum(4. ** -seen.get(x, 0) for x in left[i][1]))
        b, fs = left.pop(i)
        r.append(b)
        for x in fs:
            seen[x] = seen.get(x, 0) + 1
    return r


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    const = dict(Sim=True, Emit=False, TraceMode=False, Most=4)
    inv = ['ProbesOnSurface', 'ProbesInside', 'Laplace', 'Symmetric', 'FitsSlot']
    const.update(Emit=True)
    bs = core.generate(ctx, 'BoundaryConditions', 'Init /\\ [][Next]_vars', const, num=260 if ctx.quick else 3000, depth=8, parts=4, invariants=inv + ['Done'])
    unique, seen = [], set()
    for b in bs:
        key = repr(b)
        if key not in seen:
            seen.add(key)
            unique.append(b)
    rad = [b for b in unique if b['sym'] == 'radial']
    three = [b for b in unique if b['sym'] == '3d']
    # Solutions with many triangles take long: choose problems that cover most
    def features(b):
        ps = [p['part'] for p in b['parts']]
        fs = {(p['what'], p['sh'], p['k'][0] < p['k'][1] if p['what'] in ('dielectric', 'magnetizable') else 0) for p in ps} | {(b['wall'], ps[0]['what'])}
        # of a material something is seen in the field of a source only
        src = {FAM[p['what']] for p in ps if p['what'] in ('fixed', 'fun', 'potential')}
        return {x for x in fs if x[0] not in ('dielectric', 'magnetizable') or FAM[x[0]] in src}
    if ctx.quick:
        rad, three = cover(rad, features, 80), cover(three, features, 15)
    rng = np.random.default_rng(ctx.seed)
    traces, names = [], []
    for b in rad + three:
        ctx.step(b)
        sym, n = b['sym'], len(b['parts'])
        size = .15 if sym == 'radial' else .5
        m = None
        for k, p in enumerate(b['parts']):
            g = shape(G, sym, p['part'], k)
            g.name = LETTERS[k]
            x = g.mesh(mesh_size=.5 if p['part']['sh'] == 'coil' else .25 if sym == '3d' and p['part']['sh'] == 'disk' else size)
            m = x if m is None else m + x
        if b['wall'] != 'none':
            g = wall(G, sym, n)
            g.name = 'w'
            m = m + g.mesh(mesh_size=.3 if sym == 'radial' else 1.5)

        def excite(leave_out=None, unit=None):
            exc = E.Excitation(m, E.Symmetry.RADIAL if sym == 'radial' else E.Symmetry.THREE_D)
            for k, p in enumerate(b['parts']):
                p = p['part']
                if k == leave_out:
                    continue
                v = polynomial(p['poly'], centre(k)) if p['what'] == 'fun' else 1 if k == unit else p['k'][0] / p['k'][1] if p['what'] in ('dielectric', 'magnetizable') else p['poly'][0] / 4
                getattr(exc, KIND[p['what']])(**{LETTERS[k]: v})
            if b['wall'] == 'electric':
                exc.add_electrostatic_boundary('w')
            elif b['wall'] == 'magnetic':
                exc.add_magnetostatic_boundary('w')
            return exc

        f = S.solve_direct(excite())
        pot = {k: getattr(f, k + '_potential_at_point') for k in ('electrostatic', 'magnetostatic')}
        fld = {k: getattr(f, k + '_field_at_point') for k in ('electrostatic', 'magnetostatic')}
        ev = []
        active = [k for k in pot if any(p['part']['what'] in ('fixed', 'fun', 'potential', 'current') and FAM[p['part']['what']] == k for p in b['parts'])]
        coil = any(p['part']['what'] == 'current' for p in b['parts'])
        free = scenes.points(dict(parts=b['parts']), rng, 6)
        high = {k: 1e-9 for k in pot}
        ext = {k: [0., 0.] for k in pot}
        for k, p in enumerate(b['parts']):
            p, q = p['part'], p
            if p['what'] not in ('fixed', 'fun', 'potential'):
                continue
            fun = polynomial(p['poly'], centre(k))
            els = m.points[m.lines[m.physical_to_lines[LETTERS[k]]] if sym == 'radial' else m.triangles[m.physical_to_triangles[LETTERS[k]]]].reshape(-1, 3)
            v = fun(*els.T) * np.ones(len(els))
            fam = FAM[p['what']]
            high[fam] = max(high[fam], np.abs(v).max())
            ext[fam] = [min(ext[fam][0], v.min()), max(ext[fam][1], v.max())]
        big = max(high.values())
        active = [k for k in active if high[k] > 1e-3 or coil and k == 'magnetostatic']
        for k, p in enumerate(b['parts']):
            p, probes, inside = p['part'], p['probes'], p['inside']
            fam = FAM[p['what']]
            if fam not in active:
                continue
            o = np.array([0., 0., centre(k)])
            turn = rng.uniform(0, 6) if sym == 'radial' else 0.
            T = np.array([[np.cos(turn), -np.sin(turn), 0], [np.sin(turn), np.cos(turn), 0], [0, 0, 1]])
            place = lambda v: T @ (np.array(v) / 10 + o)
            if p['what'] in ('fixed', 'fun', 'potential') and not (coil and fam == 'magnetostatic'):
                for q in inside:
                    ev.append(dict(k='inside', i=k + 1, at=q, v=pot[fam](place(q)) * 4000))
                if p['sh'] in ('disk', 'tube'):
                    for q in probes:
                        x, nrm = place(q['at']), T @ (np.array(q['n']) / 5)
                        ev.append(dict(k='sheet', i=k + 1, at=q['at'], v=4000 * extrapolate(lambda d: (pot[fam](x + d * nrm) + pot[fam](x - d * nrm)) / 2, 1.5 * .25 if sym == '3d' else size)))
            if p['what'] in ('dielectric', 'magnetizable'):
                h = size if sym == 'radial' else .8 * size
                rs = []
                for q in probes:
                    x, nrm = place(q['at']), T @ (np.array(q['n']) / 5)
                    # a little aside, in symmetry planes the vertices are probed otherwise
                    out = extrapolate(lambda d: fld[fam](x + d * nrm) @ nrm, h)
                    inn = extrapolate(lambda d: fld[fam](x - d * nrm) @ nrm, h)
                    rs.append((q['at'], out, inn))
                s = max(max(abs(r[1]), abs(r[2])) for r in rs)
                if s < 1e-4 * big:
                    continue
                ev += [dict(k='ratio', i=k + 1, at=a, out=x / s * 1e6, inn=y / s * 1e6) for a, x, y in rs]
        for fam in active:
            if not (coil and fam == 'magnetostatic'):
                for x in free:
                    ev.append(dict(k='free', at=[int(10 * t) for t in x], v=4000 * pot[fam](x), lo=4000 * ext[fam][0], hi=4000 * ext[fam][1]))
        fam = b['wall'].replace('electric', 'electrostatic').replace('magnetic', 'magnetostatic')
        if fam in active:
            h = .3 if sym == 'radial' else 1.5 * .8
            es = [(x, (extrapolate if sym == 'radial' else linear)(lambda d: fld[fam](x + d * v) @ v, h), max(np.linalg.norm(fld[fam](x + t * h * v)) for t in (-1, 1))) for x, v in wall_probes(sym, n)]
            s = max(max(e[2] for e in es), max(np.linalg.norm(fld[fam](x)) for x in free), .05 * high[fam], 1e-12)
            ev += [dict(k='wall', at=[int(10 * t) for t in x], en=e / s * 1e6) for x, e, _ in es]
        mats = [k for k, p in enumerate(b['parts']) if p['part']['what'] in ('dielectric', 'magnetizable') and FAM[p['part']['what']] in active]
        if mats and (not ctx.quick or len(traces) % 3 == 0):
            k = mats[int(rng.integers(len(mats)))]
            f1, f2 = S.solve_direct(excite(unit=k)), S.solve_direct(excite(leave_out=k))
            v1, v2 = scenes.evaluate(f1, free), scenes.evaluate(f2, free)
            for c in scenes.COLS:
                s = max(np.abs(v2[:, c]).max(), 1e-12)
                ev += [dict(k='unit', at=[int(10 * t) for t in x], **{'with': a / s * 1e8, 'without': y / s * 1e8}) for x, r1, r2 in zip(free, v1[:, c], v2[:, c]) for a, y in zip(r1, r2)]
        clean = []
        for e in ev:
            bad = [x for x, v in e.items() if isinstance(v, float) and not abs(v) < 2e9]
            if bad:
                ctx.violation('Finite', f'{e} in {b}', b)
                break
            clean.append({x: int(round(v)) if isinstance(v, (float, np.floating)) else v for x, v in e.items()})
        else:
            r = sym == 'radial'
            tol = dict(inside=int(20 + 4000 * big * (2e-3 if r else 1e-2)), sheet=int(20 + 4000 * big * (.01 if r else .03)), ratio=30000 if r else 100000, wall=60000 if r else 200000, free=int(10 + 4000 * big * 2e-3), unit=100)
            traces.append(dict(parts=[p['part'] for p in b['parts']], tol=tol, ev=clean))
            names.append(f'{sym} {[(p["part"]["what"], p["part"]["sh"]) for p in b["parts"]]} wall {b["wall"]}')
            for e in clean:
                ctx.count(f'{e["k"]} {sym}')
        ctx.sample(b)
    const.update(Sim=False, Emit=False, TraceMode=True)
    core.accept(ctx, 'BoundaryConditions', traces, const, CLAUSES, spec='TraceInit /\\ [][TraceNext]_vars', events=lambda t: t['ev'], names=names, what='')
    ctx.assumptions += ['potentials inside closed electrodes up to 0.2% (radial) and 1% (3D) of the highest voltage', 'normal fields extrapolated from one to three element sizes, up to 3% (radial) and 10% (3D) of the largest']
