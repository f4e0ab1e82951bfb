"""C01 / C02: behaviours of PathAlgebra.tla replayed on traceon.geometry.Path."""
import math
import numpy as np
import core

PHI = math.atan2(4, 3)
PI8 = math.pi / 8
DIRS = '{<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>, <<3,4,0>>, <<-3,0,4>>, <<0,-4,-3>>, <<2,-1,2>>, <<-1,2,2>>}'


def lval(l):
    return l[0] + l[1] * PI8 + l[2] * PHI


def vec(v):
    return np.array(v, dtype=float)


def pt(p):
    t = p['k'] * PI8 + p['m'] * PHI
    return vec(p['c']) + math.cos(t) * vec(p['u']) + math.sin(t) * vec(p['v'])


def seg_samples(s):
    """(distance along the segment, point) pairs, ends included, and the length of the segment."""
    if s['t'] == 'L':
        length = s['n'] * math.sqrt(sum(x * x for x in s['d']))
        return [(f * length, vec(s['a']) + f * s['n'] * vec(s['d'])) for f in (0., .125, 1 / 3, .5, .8, 1.)], length
    t0, t1 = (s[k][0] * PI8 + s[k][1] * PHI for k in ('t0', 't1'))
    r = math.sqrt(sum(x * x for x in s['u']))
    return [(f * (t1 - t0) * r, vec(s['c']) + math.cos(t0 + f * (t1 - t0)) * vec(s['u']) + math.sin(t0 + f * (t1 - t0)) * vec(s['v']))
            for f in (0., .125, 1 / 3, .5, .8, 1.)], (t1 - t0) * r


TOL = 1e-8


def compare(ctx, path, exp, label):
    """The real path against its projection in the specification."""
    def fail(clause, detail):
        raise core.Violation(clause, f'{label}: {detail}')
    L = lval(exp['len'])
    if not abs(path.path_length - L) <= TOL:
        fail('Length', f'length {path.path_length!r}, expected {L!r}')
    if (path.name or '') != exp['name']:
        fail('Name', f'name {path.name!r}, expected {exp["name"]!r}')
    bs = [float(b) for b in path.breakpoints]
    if any(b1 < b0 - TOL for b0, b1 in zip(bs, bs[1:])):
        fail('CornersAscending', f'breakpoints {bs} are not in ascending order')
    if any(b < -TOL or b > L + TOL for b in bs):
        fail('CornersInside', f'breakpoints {bs} outside of [0, {L}]')
    got = []
    for b in sorted(bs):
        if TOL < b < L - TOL and not (got and b - got[-1] <= TOL):
            got.append(b)
    want = [lval(c) for c in exp['corners']]
    if len(got) != len(want) or any(abs(a - b) > TOL for a, b in zip(got, want)):
        fail('Corners', f'corners at {got}, expected {want}')
    pos = 0.
    ev = lambda d: np.asarray(path(min(max(d, 0.), path.path_length)), dtype=float)
    for s in exp['segs']:
        samples, length = seg_samples(s)
        for d, p in samples:
            q = ev(pos + d)
            if q.shape != (3,) or not np.all(np.abs(q - p) <= 1e-7):
                fail('Points', f'at distance {pos + d}: {q}, expected {p}')
        pos += length
    ctx.count('points compared', 6 * len(exp['segs']))
    for name, meth, p in (('starting_point', path.starting_point, exp['start']), ('endpoint', path.endpoint, exp['end'])):
        if not np.all(np.abs(np.asarray(meth(), dtype=float) - pt(p)) <= 1e-7):
            fail('Points', f'{name} {meth()}, expected {pt(p)}')
    if exp['segs']:
        m = np.asarray(path.middle_point(), dtype=float)
        if not np.all(np.abs(m - ev(L / 2)) <= 1e-7):
            fail('Points', f'middle_point {m}')
    if bool(path.is_closed()) != bool(exp['closed']):
        fail('Closed', f'is_closed {path.is_closed()}, expected {exp["closed"]}')


def apply(G, heap, op, a):
    """Execute one operation of the specification; the new paths."""
    P = G.Path
    h = lambda k: heap[a[k] - 1]
    f = lambda v: [float(x) for x in v]
    if op == 'line':
        return [P.line(f(a['a']), f(a['b']))]
    if op == 'line_to':
        return [h('i').line_to(a['b'])]
    if op == 'arc_to':
        return [h('i').arc_to(a['center'], a['end'], reverse=a['reverse'])]
    if op == 'arc':
        return [P.arc(f(a['center']), f(a['start']), f(a['end']), reverse=a['reverse'])]
    if op == 'circle':
        c = {1: P.circle_yz, 2: P.circle_xz, 3: P.circle_xy}[a['n']]
        return [c(float(a['c1']), float(a['c2']), a['r'])] if a['k'] == 16 else [c(float(a['c1']), float(a['c2']), a['r'], angle=a['k'] * PI8)]
    if op == 'rectangle':
        c = {1: P.rectangle_yz, 2: P.rectangle_xz, 3: P.rectangle_xy}[a['n']]
        return [c(a['a0'], a['a1'], a['b0'], a['b1'])]
    if op == 'aperture':
        return [P.aperture(a['height'], a['radius'], a['extent'], z=float(a['z']))]
    if op == 'close':
        return [h('i').close()]
    if op == 'join':
        d = a['d']
        other = h('j').move(dx=float(d[0]), dy=float(d[1]), dz=float(d[2]))
        return [other, h('i') >> other]
    if op == 'concat':
        return [h('i') >> h('j')]
    if op == 'cut':
        return list(h('i').cut(min(lval(a['at']), h('i').path_length)))
    if op == 'add_phase':
        return [h('i').add_phase(lval(a['at']))]
    if op == 'move':
        return [h('i').move(*f(a['d']))]
    if op == 'rotate':
        return [h('i').rotate(**{'R' + 'xyz'[a['axis'] - 1]: a['quarters'] * math.pi / 2}, origin=f(a['origin']))]
    if op == 'mirror':
        return [[h('i').mirror_yz, h('i').mirror_xz, h('i').mirror_xy][a['axis'] - 1]()]
    if op == 'name':
        h('i').name = a['name']
        return []
    raise core.MachineryError('unknown operation ' + op)


def replay(ctx, G, b, collect=None):
    heap, log = [], []
    try:
        for n, o in enumerate(b['ops']):
            log.append((o['op'], o['args']))
            ctx.step(dict(history=log))
            new = apply(G, heap, o['op'], o['args'])
            for path, exp in zip(new, o['new']):
                if not isinstance(path, G.Path):
                    raise core.Violation('Kind', f'{o["op"]} returned {type(path)}')
                compare(ctx, path, exp, f'result of step {n + 1} {o["op"]} {o["args"]}')
            heap.extend(new)
            ctx.count('operations ' + o['op'])
        # all paths, in particular the operands of all operations, are still what they were
        for i, (path, exp) in enumerate(zip(heap, b['heap'])):
            compare(ctx, path, exp, f'path {i + 1} at the end of the history')
    except core.Violation as v:
        ctx.violation(v.clause, v.detail, dict(history=log))
    ctx.validated += 1
    ctx.sample([[o['op'], o['args']] for o in b['ops']])
    return heap


INV = ['Continuous', 'PositiveParts', 'CornersInside', 'LengthsAddUp', 'CutKeepsCorners']


def run(ctx, nxt):
    import traceon.geometry as G
    # Exhaustive checks of the design: all operations in short histories, few operations in longer ones
    for nx, depth in ((nxt, 2 if ctx.quick else 3), ('NextSmall', 4 if ctx.quick else 5)):
        small = nx == 'NextSmall'
        core.design(ctx, 'PathAlgebra', f'Init /\\ [][{nx}]_vars',
                    dict(Sim=False, Emit=False, Depth=depth, B=8, MaxHeap=4 if small else 5, MaxN=2 if small else 1,
                         Dirs='{<<1,0,0>>, <<-1,0,0>>}' if small else '{<<1,0,0>>, <<0,0,1>>, <<-1,0,0>>}', Radii='{5}', Names='{"a"}',
                         Moves='{<<0,0,0>>}' if small else '{<<0,0,0>>, <<1,0,2>>}', ArcEnds='{<<4,0>>}'), INV, heap='8g', timeout=3000)
    # Behaviours over the full alphabet
    depth = 12 if ctx.quick else 18
    bs = core.generate(ctx, 'PathAlgebra', f'Init /\\ [][{nxt}]_vars',
                       dict(Sim=True, Emit=True, Depth=depth, B=60, MaxHeap=2 * depth, MaxN=4, Dirs=DIRS, Radii='{5, 10}', Names='{"a", "b", ""}',
                            Moves='{<<0,0,0>>, <<1,-2,3>>, <<-4,0,1>>, <<2,5,-3>>}', ArcEnds='{<<4,0>>, <<0,1>>, <<4,-1>>, <<8,-1>>, <<4,1>>}'),
                       num=1200 if ctx.quick else 12000, depth=depth + 1, parts=6, invariants=INV + ['Done'])
    for b in bs:
        replay(ctx, G, b)
    return bs
