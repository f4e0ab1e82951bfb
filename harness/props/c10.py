"""C10: closed bodies of Orientation.tla, shuffled and turned around, given to the real Mesh."""
import random
import numpy as np
import core
from props.meshes import flipped


def raised(p, kind, order):
    """The element with its extra points (midpoints, thirds)."""
    p = [np.array(x, dtype=float) for x in p]
    if kind == 't' and order:
        p += [(p[0] + p[1]) / 2, (p[1] + p[2]) / 2, (p[2] + p[0]) / 2]
    if kind == 'l' and order:
        p += [p[0] + (p[1] - p[0]) / 3, p[0] + (p[1] - p[0]) * 2 / 3]
    return tuple(tuple(float(v) for v in x) for x in p)


def cycled(p, k):
    if len(p) == 3:
        return p[k:] + p[:k]
    if len(p) == 6:
        return p[:3][k:] + p[:3][:k] + p[3:][k:] + p[3:][:k]
    return p


def same(a, b):
    """Equal up to where a triangle starts."""
    ks = range(3) if len(a) in (3, 6) else (0,)
    return any(np.allclose(cycled(a, k), b, atol=1e-9) for k in ks)


def solver(ctx, q, M, E, S):
    """Solving a mesh of straight line elements is solving the mesh of the same elements with their points at one and
    two thirds: nothing happens to the normals, whichever way they point."""
    rnd = random.Random(q['shuffle'])
    line = [p for p in q['parts'] if p['k'] == 'l'][0]
    sign = rnd.choice([1, -1])
    fields = []
    for order in (False, True):
        els = [raised(e, 'l', order) for e in line['els']]
        els = [e if sign == 1 else flipped(e) for e in els]
        far = [raised(((20. + 2 * k, 0., -10.), (22. + 2 * k, 0., -9.)), 'l', order) for k in range(4)]
        pts = [x for e in els + far for x in e]
        w = len(els[0])
        m = M.Mesh(points=pts, lines=np.arange(len(pts)).reshape(-1, w), physical_to_lines=dict(d=np.arange(len(els)), e=np.arange(len(els), len(els) + 4)), ensure_outward_normals=False)
        exc = E.Excitation(m, E.Symmetry.RADIAL)
        exc.add_voltage(e=10.)
        exc.add_dielectric(d=2.5)
        fields.append(S.solve_direct(exc))
    at = [np.array([x, 0., z]) for x in (0., 3.3, 18.) for z in (-5., 2.1, 21.)]
    a, b = ([f.potential_at_point(p) for p in at] for f in fields)
    if not np.allclose(a, b, rtol=1e-8, atol=1e-10):
        raise core.Violation('SolverKeepsNormals', f'dielectric contour with sign {sign}: potentials {a} from straight elements, {b} from the same elements given with four points')
    ctx.count('solved')


def run(ctx):
    import traceon.mesher as M, traceon.excitation as E, traceon.solver as S
    core.design(ctx, 'Orientation', 'DesignSpec', dict(Sim=False, GenN=1), ['SeenAgree', 'AllOrNone'], ['EndsOutward'], heap='6g', timeout=1500)
    reqs = core.generate(ctx, 'Orientation', 'GenSpec', dict(Sim=False, GenN=200 if ctx.quick else 2500), 1, 1, invariants=())[0]
    for q in reqs:
        rnd = random.Random(q['shuffle'])
        # expected outward element, names and part; and the element as it is given
        els = []
        for k, p in enumerate(q['parts']):
            for e in p['els']:
                out = raised(e, p['k'], q['order6'] if p['k'] == 't' else q['order4'])
                given = cycled(out, rnd.randrange(3))
                turned = rnd.random() < .5
                els.append(dict(kind=p['k'], part=k, names=p['names'], out=out, given=flipped(given) if turned else given))
        rnd.shuffle(els)
        scale, index, pts = rnd.choice([1., .03, 2e-6, 50.]), {}, []
        def number(x):
            # points are given once, or separately for every element
            if x not in index or q['shuffle'] % 3 == 0:
                index[x] = len(pts)
                pts.append(x)
            return index[x]
        kw = dict(physical_to_lines={}, physical_to_triangles={})
        for kind, key, width in (('l', 'lines', 4 if q['order4'] else 2), ('t', 'triangles', 6 if q['order6'] else 3)):
            own = [e for e in els if e['kind'] == kind]
            if own:
                kw[key] = np.array([[number(x) for x in e['given']] for e in own], dtype=np.int64)
            for nm in ('a', 'b'):
                idx = [i for i, e in enumerate(own) if nm in e['names']]
                if idx:
                    rnd.shuffle(idx)
                    kw['physical_to_' + key][nm] = np.array(idx)
        kw['points'] = np.array(pts, dtype=float).reshape(-1, 3) * scale
        m, log = None, []
        brief = f'{len(els)} elements in {[(p["k"], p["names"]) for p in q["parts"]]}, mode {q["mode"]}, shuffle {q["shuffle"]}'
        ctx.step(dict(brief=brief, request=q['shuffle']))
        try:
            for n, o in enumerate(q['ops']):
                log.append((o['op'], o['g']))
                old = m
                if n == 0:
                    m = M.Mesh(ensure_outward_normals=o['op'] == 'rebuild', **kw)
                elif o['op'] in ('inward', 'outward'):
                    if rnd.random() < .3 and o['op'] == 'inward':
                        # what a boundary does, in the mesh of the excitation
                        exc = E.Excitation(m, E.Symmetry.THREE_D)
                        (exc.add_electrostatic_boundary if rnd.random() < .5 else exc.add_magnetostatic_boundary)(o['g'])
                        m = exc.mesh
                    else:
                        getattr(m, f'ensure_{o["op"]}_normals')(o['g'])
                elif o['op'] == 'flip':
                    m = m.flip_normals()
                else:
                    m = M.Mesh(points=m.points, lines=m.lines, triangles=m.triangles, physical_to_lines=m.physical_to_lines, physical_to_triangles=m.physical_to_triangles,
                               ensure_outward_normals=o['op'] == 'rebuild')
                P = np.asarray(m.points) / scale
                where = f'{brief}, after {log}'
                for kind, arr in (('l', np.asarray(m.lines)), ('t', np.asarray(m.triangles))):
                    own = [e for e in els if e['kind'] == kind]
                    if len(arr) != len(own):
                        raise core.Violation('Elements', f'{where}: {len(arr)} elements of kind {kind}, expected {len(own)}')
                    for i, (e, x) in enumerate(zip(own, arr.astype(int))):
                        asgiven, sign = q['sign'][e['part']][n]
                        want = e['given'] if asgiven else e['out']
                        want = want if sign == 1 else flipped(want)
                        got = tuple(tuple(P[j]) for j in x)
                        if not same(want, got):
                            clause = 'Elements' if not same(flipped(want), got) else 'LeftAlone' if asgiven else 'Outward' if sign == 1 else 'Inward'
                            raise core.Violation(clause, f'{where}: element {i} of kind {kind} in groups {e["names"]} is {got}, expected {want}')
                ctx.count('orientations', len(els))
            if any(p['k'] == 'l' for p in q['parts']) and ctx.counts.get('solved', 0) < 12:
                solver(ctx, q, M, E, S)
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, q)
        ctx.validated += 1
        for p in q['parts']:
            ctx.count('bodies ' + p['k'])
        ctx.sample(q)
    ctx.assumptions += ['bodies are solids of unit cubes and polyomino contours', 'no two faces of a solid only have an edge in common']
