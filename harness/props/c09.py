"""C09: raw meshes of MeshCleanup.tla (coinciding points, degenerate triangles) given to the real constructor."""
import numpy as np
import core
from props.meshes import arrays, bag, flipped, snapshot


def noisy(pts, noise, scale, shift):
    """Floating point variants of the same position."""
    p = (pts + shift) * scale
    unit = scale * max(1., np.abs(pts + shift).max())
    eps = {0: 0., 1: 2e-16, 2: -2e-16, 3: 1e-15, 4: 0.}
    for i, k in enumerate(noise):
        p[i] += eps[k] * unit * np.array([1., -1., 2.])
        if k == 4:
            p[i] = np.where(p[i] == 0., -0., p[i])
    return p


def run(ctx):
    import traceon.mesher as M
    core.design(ctx, 'MeshCleanup', 'DesignSpec', dict(Sim=False, GenN=1), ['Left', 'Once', 'Formed', 'Idempotent', 'SameNames', 'GroupOrder'], heap='6g', timeout=1500)
    reqs = core.generate(ctx, 'MeshCleanup', 'GenSpec', dict(Sim=False, GenN=1500 if ctx.quick else 15000), 1, 1, invariants=())[0]
    for q in reqs:
        ctx.step(q)
        # A scale that is not a power of two only without rounding noise
        scale = 3e-7 if q['scale'] == 99 else 2. ** q['scale']
        noise = [0] * len(q['noise']) if q['scale'] == 99 else q['noise']
        shift = 0 if q['scale'] == 99 else q['shift']
        kw = arrays(q['mesh'])
        kw['points'] = noisy(kw['points'], noise, scale, shift)
        if q['form'] == 2:
            kw = {k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        if q['form'] == 3:
            kw.update({k: kw[k].astype(np.int32) for k in ('lines', 'triangles') if k in kw})
        before = repr(kw)
        where = f'mesh {q["mesh"]} noise {noise} scale {scale} shift {shift}'
        try:
            m = M.Mesh(ensure_outward_normals=q['ensure'], **kw)
            if repr(kw) != before:
                raise core.Violation('InputUnchanged', f'{where}: arguments modified')
            shifted = type('shifted', (), dict(points=np.asarray(m.points) - shift * scale, lines=m.lines, triangles=m.triangles, physical_to_lines=m.physical_to_lines, physical_to_triangles=m.physical_to_triangles))
            got = bag(shifted, scale, where)
            want = [(e['k'], tuple(map(tuple, e['p'])), tuple(sorted(e['nm']))) for e in q['els']]
            free = q['ensure']
            named = {e[0]: True for e in want if e[2]}
            if len(got) != len(want):
                raise core.Violation('Elements', f'{where}: {len(got)} elements, expected {len(want)}')
            for k, (a, b) in enumerate(zip(want, got)):
                if a[:2] != b[:2] and not (q['ensure'] and a[2] and a[0] == b[0] and a[1] == flipped(b[1])):
                    raise core.Violation('Elements', f'{where}: element {k} {b}, expected {a}')
                if a[2] != b[2]:
                    raise core.Violation('Names', f'{where}: element {k} {b}, expected {a}')
            if sorted(m.physical_to_lines) != sorted(kw['physical_to_lines']) or sorted(m.physical_to_triangles) != sorted(kw['physical_to_triangles']):
                raise core.Violation('GroupNames', where)
            if len(m.points) != q['npts']:
                raise core.Violation('EveryPositionOnce', f'{where}: {len(m.points)} points for {q["npts"]} positions {np.asarray(m.points).tolist()}')
            again = M.Mesh(points=m.points, lines=m.lines, triangles=m.triangles, physical_to_lines=m.physical_to_lines, physical_to_triangles=m.physical_to_triangles, ensure_outward_normals=False)
            content = lambda x: [y for y in snapshot(x) if not (y and isinstance(y, tuple) and y[0] == 0)]    # without the shapes of empty arrays
            if content(again) != content(m):
                raise core.Violation('Idempotent', where)
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, q)
        ctx.validated += 1
        ctx.count('dropped triangles', len(q['mesh']['t']) - len([e for e in q['els'] if e['k'] == 't']))
        ctx.count('elements', len(q['els']))
        ctx.sample(q)
    ctx.assumptions += ['rounding noise is added to points on a dyadic lattice', 'lines without length are not generated']
