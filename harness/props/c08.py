"""C08: behaviours of MeshAlgebra.tla (meshes combined and selected) replayed on the real Mesh."""
import numpy as np
import core
from props.meshes import bag, build, snapshot, compare_bags

INV = ['Refines', 'Formed', 'Partition', 'ExtractTwice']


def questions(o, m, where):
    if set(m.get_electrodes()) != set(o['names']):
        raise core.Violation('Electrodes', f'{where}: electrodes {m.get_electrodes()}, expected {o["names"]}')
    used = np.unique(np.concatenate([np.asarray(m.lines).ravel(), np.asarray(m.triangles).ravel()]))
    if len(used) and bool(m.is_3d()) == bool(m.is_2d()):
        raise core.Violation('Dimension', f'{where}: both or neither two and three dimensional')
    if len(used) and (o['spatial'] or len(used) == len(m.points)) and bool(m.is_3d()) != o['spatial']:
        raise core.Violation('Dimension', f'{where}: is_3d is {m.is_3d()}, elements outside of y = 0: {o["spatial"]}')
    lengths = {len(e['p']) for e in o['els'] if e['k'] == 'l'}
    if lengths and bool(m.is_higher_order()) != (lengths == {4}):
        raise core.Violation('HigherOrder', f'{where}: is_higher_order is {m.is_higher_order()} for lines of {lengths} points')


def run(ctx):
    import traceon.mesher as M
    const = dict(Sim=False, Emit=False, Depth=3 if ctx.quick else 4, Bases='SomeBases', Names='{"a", "b"}')
    core.design(ctx, 'MeshAlgebra', 'Init /\\ [][Next]_vars', const, INV + ['Associative', 'Distributes', 'QuestionsAdd'], heap='6g', timeout=2500)
    const.update(Sim=True, Emit=True, Depth=7 if ctx.quick else 9, Names='{"a", "b", "c"}')
    bs = core.generate(ctx, 'MeshAlgebra', 'InitSim /\\ [][NextSim]_vars', const, num=400 if ctx.quick else 6000, depth=12, parts=4, invariants=INV + ['Done'])
    for n, b in enumerate(bs):
        heap, snaps, log, loose = [], [], [], []
        scale = [1., .25, 1e-6, 37.][n % 4]
        try:
            for o in b['ops']:
                a = o['args']
                log.append((o['op'], a))
                ctx.step(dict(history=log))
                if o['op'] == 'new':
                    m, ever = build(M, a, scale), []
                elif o['op'] == 'add':
                    m, ever = heap[a['i'] - 1] + heap[a['j'] - 1], loose[a['i'] - 1] + loose[a['j'] - 1]
                elif o['op'] == 'extract':
                    m, ever = heap[a['i'] - 1].extract_physical_group(a['name']), loose[a['i'] - 1]
                else:
                    m, ever = getattr(heap[a['i'] - 1], o['op'])(), loose[a['i'] - 1]
                # elements that have (had) a name may have been turned around
                ever = ever + [(e['k'], tuple(map(tuple, e['p']))) for e in o['els'] if e['nm']]
                compare_bags(o, m, scale, ever, f'{o["op"]} after {log[-6:]}')
                questions(o, m, f'{o["op"]} after {log[-6:]}')
                heap.append(m)
                loose.append(ever)
                snaps.append(snapshot(m))
                for k, (x, s) in enumerate(zip(heap, snaps)):
                    if snapshot(x) != s:
                        raise core.Violation('OperandsUnchanged', f'{o["op"]} modified mesh {k}, after {log[-6:]}')
                ctx.count(o['op'])
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, dict(history=log))
        ctx.validated += 1
        ctx.sample(b)
    ctx.assumptions += ['elements that have a name may be turned around (meshes re-ensure outward normals)']
