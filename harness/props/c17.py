"""C17: transformations of Equivariance.tla applied to real meshes, solved before and after."""
import math
import numpy as np
import core
from props import scenes

INV = ['Similarity', 'Exact', 'HandedE', 'Permuted', 'StaysRadial']
LETTERS = 'abcdef'


def renumbered(M, m, rng):
    """The same mesh with points, elements and orientations in the same sense but in another order."""
    pp = rng.permutation(len(m.points))
    inv = np.argsort(pp)
    kw = {}
    for els, groups in (('lines', 'physical_to_lines'), ('triangles', 'physical_to_triangles')):
        e = np.asarray(getattr(m, els)).astype(int)
        perm = rng.permutation(len(e))
        e2 = inv[e[perm]] if len(e) else e
        if els == 'triangles' and len(e2) and e2.shape[1] == 3:
            e2 = np.array([np.roll(t, int(rng.integers(3))) for t in e2])
        where = np.argsort(perm)
        kw[els] = e2
        items = list(getattr(m, groups).items())
        kw[groups] = {k: rng.permutation(where[np.asarray(v).astype(int)]) for k, v in [items[i] for i in rng.permutation(len(items))]}
    return M.Mesh(points=m.points[pp], ensure_outward_normals=False, **kw)


def renamed(M, m, names):
    swap = lambda g: {names[k]: np.array(v) for k, v in g.items()}
    return M.Mesh(points=m.points, lines=m.lines, triangles=m.triangles, physical_to_lines=swap(m.physical_to_lines), physical_to_triangles=swap(m.physical_to_triangles), ensure_outward_normals=False)


def run(ctx):
    import traceon.geometry as G, traceon.mesher as M, traceon.excitation as E, traceon.solver as S, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    kinds = '{"fixed", "dielectric", "potential", "current", "magnetizable"}'
    const = dict(Sim=False, Emit=False, Depth=2, Origins='{<<0, 0, 0>>, <<1, -2, 3>>}', Kinds='{}', SceneKinds='{}', MaxDen=2000, Most=1, Vals='{1}')
    core.design(ctx, 'Equivariance', 'EInit /\\ [][ENext]_vars', const, INV, heap='6g')
    const.update(Sim=True, Emit=True, Depth=5, Origins='{<<0, 0, 0>>, <<1, -2, 3>>, <<-5, 4, 0>>, <<0, 0, 9>>}', SceneKinds=kinds, Most=3, Vals='{-3, -1, 1, 2, 4}')
    bs = core.generate(ctx, 'Equivariance', 'EInit /\\ [][ENextSim]_vars', const, num=380 if ctx.quick else 20000, depth=8, parts=4, invariants=['EDone'])
    rng = np.random.default_rng(ctx.seed)
    for b in bs:
        sc = b['scene']
        ctx.step(b)
        try:
            m = scenes.mesh(G, sc)
            pts = scenes.points(sc, rng, 5)
            base = scenes.evaluate(S.solve_direct(scenes.excitation(E, sc, m)), pts)
            log, done, unit = [], None, 1.
            names = {x: x for x in LETTERS}
            for o in b['ops']:
                a, st, law = o['args'], o['state'], o['law']
                log.append((o['op'], a))
                where = f'{log} on {sc}'
                if o['op'] == 'move':
                    m = m.move(*[float(x) * unit for x in a['d']])
                elif o['op'] == 'rotate':
                    if sc['sym'] != 'radial':
                        ang = a['angle'][0] * math.pi / 2 + a['angle'][1] * math.atan2(4, 3)
                        m = m.rotate(**{'R' + 'xyz'[a['axis'] - 1]: ang}, origin=[float(x) * unit for x in a['origin']])
                elif o['op'] == 'mirror':
                    m = [m.mirror_yz, m.mirror_xz, m.mirror_xy][a['axis'] - 1]()
                elif o['op'] == 'scale':
                    s = a['s'][0] / a['s'][1]
                    m = m.map_points(lambda p: s * p)
                elif o['op'] == 'unit':
                    s = 2.**a['u'] / unit
                    m = m.map_points(lambda p: s * p)
                    unit = 2.**law['unit']
                elif o['op'] == 'rename':
                    x, y = LETTERS[a['i'] - 1], LETTERS[a['j'] - 1]
                    m = renamed(M, m, {k: y if k == x else x if k == y else k for k in LETTERS})
                    names = {k: y if v == x else x if v == y else v for k, v in names.items()}
                elif o['op'] == 'renumber':
                    m = renumbered(M, m, np.random.default_rng(a['seed']))
                lam = st['factor'][0] / st['factor'][1]
                mat = np.array(st['map']['m']) / st['map']['den']
                shift = np.array(st['map']['b']) / st['map']['den']
                vals, ns = [], []
                for n in sc['names']:
                    v = scenes.number(n['v'])
                    if n['kind'] not in ('dielectric', 'magnetizable'):
                        v = v * lam * (law['magnetic'] if n['kind'] == 'potential' else 1)
                    vals.append(float(v))
                    ns.append(dict(n, nm=names[n['nm']]))
                exc = scenes.excitation(E, dict(sc, names=ns), m, vals)
                if o['op'] == 'renumber' and log[-1][1]['seed'] % 2:
                    # the order of the assignments does not matter either
                    exc = scenes.excitation(E, dict(sc, names=ns[::-1]), m, vals[::-1])
                q = [unit * (mat @ p + shift) for p in pts]
                got = scenes.evaluate(S.solve_direct(exc), q)
                f = law['field']['num'] / law['field']['den'] / unit * mat
                exp = np.hstack([lam * base[:, :1], base[:, 1:4] @ f.T, law['magnetic'] * lam * base[:, 4:5], law['magnetic'] * (base[:, 5:] @ f.T)])
                d = scenes.differ(got, exp, 1e-6)
                if d:
                    raise core.Violation('Equivariant', f'{where}: {d}, the transformed value of the original at {[p.tolist() for p in pts]}')
                ctx.count(o['op'] + ' ' + sc['sym'])
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, b)
        ctx.validated += 1
        ctx.sample(b)
    ctx.assumptions += ['equality up to 1e-6 of the largest value among the sampled points']
