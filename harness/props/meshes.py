"""Meshes of MeshModel.tla and of the real code: building, describing and comparing them."""
import numpy as np
import core

FLIP = {2: [1, 0], 4: [1, 0, 3, 2], 3: [0, 2, 1], 6: [0, 2, 1, 5, 4, 3]}


def flipped(p):
    return tuple(p[i] for i in FLIP[len(p)])


def groups(g):
    return {} if g == [] else {k: np.array(v, dtype=np.int64) - 1 for k, v in g.items()}


def arrays(a, scale=1.):
    kw = dict(points=np.array(a['pts'], dtype=float).reshape(-1, 3) * scale, physical_to_lines=groups(a['gl']), physical_to_triangles=groups(a['gt']))
    if a['l']:
        kw['lines'] = np.array(a['l'], dtype=np.int64) - 1
    if a['t']:
        kw['triangles'] = np.array(a['t'], dtype=np.int64) - 1
    return kw


def build(M, a, scale=1.):
    return M.Mesh(**arrays(a, scale))


def snapshot(m):
    return (np.asarray(m.points).tobytes(), np.asarray(m.lines).tobytes(), np.asarray(m.triangles).tobytes(), np.asarray(m.lines).shape, np.asarray(m.triangles).shape,
            tuple((k, np.asarray(v).tobytes()) for k, v in m.physical_to_lines.items()), tuple((k, np.asarray(v).tobytes()) for k, v in m.physical_to_triangles.items()))


def lattice(pts, scale, where):
    q = np.asarray(pts) / scale
    r = np.rint(q)
    if len(q) and not (np.abs(q - r) < 1e-6).all():
        raise core.Violation('Positions', f'{where}: a point that was never given, {q[np.abs(q - r).max(axis=1) >= 1e-6][0] * scale}')
    return r.astype(int) + 0


def bag(m, scale, where):
    """The elements as [kind, positions, names], in order, after checking that all numbers refer to something."""
    pts = lattice(m.points, scale, where)
    out = []
    for kind, els, g in (('l', m.lines, m.physical_to_lines), ('t', m.triangles, m.physical_to_triangles)):
        els = np.asarray(els).astype(np.int64)
        if els.size and not (0 <= els.min() and els.max() < len(pts)):
            raise core.Violation('Indices', f'{where}: element refers to point {els.max()} of {len(pts)}')
        names = [set() for _ in els]
        for k, v in g.items():
            for i in np.asarray(v).ravel():
                if not 0 <= int(i) < len(els):
                    raise core.Violation('Indices', f'{where}: group {k} refers to element {i} of {len(els)}')
                names[int(i)].add(k)
        for e, n in zip(els, names):
            out.append((kind, tuple(tuple(int(x) for x in pts[i]) for i in e), tuple(sorted(n))))
    return out


def compare_bags(exp, m, scale, ever, where):
    free = {(k, p) for k, p in ever}
    free |= {(k, flipped(p)) for k, p in free}
    canon = lambda e: (e[0], min(e[1], flipped(e[1])) if (e[0], e[1]) in free else e[1], e[2])
    want = sorted(canon((e['k'], tuple(map(tuple, e['p'])), tuple(sorted(e['nm'])))) for e in exp['els'])
    got = sorted(canon(e) for e in bag(m, scale, where))
    if [e[:2] for e in want] != [e[:2] for e in got]:
        raise core.Violation('Elements', f'{where}: missing {[e for e in want if e not in got][:3]}, unexpected {[e for e in got if e not in want][:3]}, {len(got)} elements, expected {len(want)}')
    if want != got:
        raise core.Violation('Names', f'{where}: expected {[e for e in want if e not in got][:3]}, got {[e for e in got if e not in want][:3]}')
    for key, g in (('ln', m.physical_to_lines), ('tn', m.physical_to_triangles)):
        if sorted(exp[key]) != sorted(g):
            raise core.Violation('GroupNames', f'{where}: groups {sorted(g)}, expected {sorted(exp[key])}')
