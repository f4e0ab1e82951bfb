"""C14: expressions of FieldAlgebra.tla evaluated with real fields."""
import numpy as np
import core
from props import scenes

INV = ['Commutes', 'Cancels', 'Distributes', 'Twice', 'Operands', 'OneClass']


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.interpolation as I, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    const = dict(Sim=False, Emit=False, Depth=2, NBases=2, MaxShift=2, Factors='{-1, 0, 2}', Vals='{1}', Kinds='{"fixed"}', Setups='Setup2')
    core.design(ctx, 'FieldAlgebra', 'Init /\\ [][Next]_vars', const, INV)
    const.update(Sim=True, Emit=True, Depth=9, NBases=4, MaxShift=4, Factors='-3..3', Vals='{-3, -2, -1, 1, 2, 3}', Kinds='{"fixed", "dielectric", "potential", "current", "magnetizable"}')
    bs = core.generate(ctx, 'FieldAlgebra', 'InitSim /\\ [][NextSim]_vars', const, num=300 if ctx.quick else 12000, depth=12, parts=4, invariants=['Operands', 'Done'])
    rng = np.random.default_rng(ctx.seed)
    for b in bs:
        bases, log = b['bases'], []
        ctx.step(b)
        try:
            scene = dict(sym=bases['sym'], parts=bases['parts'])
            m = scenes.mesh(G, scene)
            moved = m.move(dz=float(scenes.PITCH))
            fields = [S.solve_direct(scenes.excitation(E, dict(scene, names=f['names']), moved if f['moved'] else m)) for f in bases['fields']]
            pts = scenes.points(scene, rng, 4)
            top = scenes.PITCH * (scenes.slots(scene) + 1)
            zmin, zmax, N = -1.3, top + .3, 14
            near = [np.array([rng.uniform(-.2, .2), rng.uniform(-.2, .2), rng.uniform(zmin, zmax)]) for _ in range(4)]
            near[0][:2] = 0.
            P = dict(bem=pts, axial=near, shifted=near)
            base = dict(bem=np.array([scenes.evaluate(f, pts) for f in fields]))
            # the same number of samples, and on some scenes almost the same stretch
            shift = [.3, .04, 1e-3][int(rng.integers(3))]
            explicit = rng.integers(3) == 0    # the field made from its coefficients

            def interpolate(f, c):
                a = I.FieldRadialAxial(f, zmin - (c == 'shifted') * shift, zmax, N)
                return S.FieldRadialAxial(a.z, a.electrostatic_coeffs, a.magnetostatic_coeffs) if explicit else a
            if bases['sym'] == 'radial':
                for c in ('axial', 'shifted'):
                    base[c] = np.array([scenes.evaluate(interpolate(f, c), near) for f in fields])
            heap = list(fields)
            kind = [('electrostatic' if f.is_electrostatic() else '') + ('magnetostatic' if f.is_magnetostatic() else '') for f in fields]
            seen = [base['bem'][i] for i in range(len(fields))]
            for o in b['ops']:
                a = o['args']
                log.append((o['op'], a))
                where = f'{log} on fields {bases}'
                x = heap[a['i'] - 1]
                if o['op'] == 'mismatch':
                    y = heap[a['j'] - 1]
                    try:
                        f = x - y if a['sub'] else x + y
                    except Exception:
                        f = None
                    if f is not None:
                        raise core.Violation('OneClass', f'{where}: fields sampled differently were added, giving {f}')
                    ctx.count('mismatch')
                    continue
                if o['op'] == 'add':
                    f = x + heap[a['j'] - 1]
                elif o['op'] == 'sub':
                    f = x - heap[a['j'] - 1]
                elif o['op'] == 'neg':
                    f = -x
                elif o['op'] == 'mul':
                    k = a['k'] / 2 if a['s'] else (a['k'] if len(log) % 2 else float(a['k']))
                    k = [k, k, np.float64(k), np.int64(k) if isinstance(k, int) else k][int(rng.integers(4))]
                    f = k * x if a['side'] == 'left' else x * k
                else:
                    f = interpolate(x, a['c'])
                e = o['f']
                c = np.array(e['c']) / 2. ** e['s']
                got = scenes.evaluate(f, P[e['cls']])
                bv = base[e['cls']]
                exp = np.tensordot(c, bv, 1)
                for q, col in zip(scenes.KINDS, scenes.COLS):
                    scale = np.abs(bv[:, :, col]).max() * max(1., np.abs(c).sum())
                    d = np.abs(got[:, col] - exp[:, col]).max()
                    if not d <= 1e-9 * scale:
                        i = int(np.abs(got[:, col] - exp[:, col]).max(axis=1).argmax())
                        raise core.Violation('LinearCombination', f'{where}: {q} at {P[e["cls"]][i].tolist()} is {got[i, col].tolist()}, the combination {c.tolist()} is {exp[i, col].tolist()}')
                # the short form, for fields of one kind
                used = {kind[i] for i in range(len(c)) if c[i] != 0}
                if len(used) == 1 and (w := used.pop()) in ('electrostatic', 'magnetostatic') and all(k == w for k in kind) and (e['cls'] == 'bem' or np.abs(exp).max() > 1e-6 * np.abs(bv).max()):
                    v = np.concatenate([[f.potential_at_point(P[e['cls']][0])], f.field_at_point(P[e['cls']][0])])
                    if not np.array_equal(v, got[0, :4] if w == 'electrostatic' else got[0, 4:]):
                        raise core.Violation('ShortForm', f'{where}: field_at_point {v.tolist()}, should be {got[0].tolist()}')
                there = [any(c[i] != 0 and w in kind[i] for i in range(len(c))) and np.abs(exp[:, col]).max() > 1e-6 * np.abs(bv[:, :, col]).max() for w, col in (('electrostatic', slice(0, 4)), ('magnetostatic', slice(4, 8)))]
                if all(there):
                    for short in (f.field_at_point, f.potential_at_point):
                        try:
                            v = short(P[e['cls']][0])
                        except RuntimeError:
                            ctx.count('short form refused')
                        else:
                            raise core.Violation('ShortForm', f'{where}: {short.__name__} of a field with an electric and a magnetic part gives {v}')
                heap.append(f)
                seen.append(got)
                for k in {a['i'] - 1, a.get('j', 1) - 1, int(rng.integers(len(heap)))} if o is not b['ops'][-1] else range(len(heap)):
                    g, s = heap[k], seen[k]
                    if not np.array_equal(scenes.evaluate(g, P['bem' if isinstance(g, S.FieldBEM) else 'axial'][:1])[0], s[0]):
                        raise core.Violation('OperandsUnchanged', f'{where}: field {k + 1} changed')
                ctx.count(o['op'] + ' ' + e['cls'] + (' explicit' if explicit and e['cls'] != 'bem' else ''))
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, dict(b, log=log))
        ctx.validated += 1
        ctx.sample(b)
    ctx.assumptions += ['equality up to 1e-9 of the largest base value', 'fields on which bounds are set are not combined']
