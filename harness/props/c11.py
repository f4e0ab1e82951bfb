"""C11: behaviours of FileRoundTrip.tla (meshes written, read, converted) replayed with real files."""
import contextlib, io, os, tempfile
import numpy as np
import core
from props.meshes import arrays, bag, build, compare_bags, snapshot

INV = ['FileIsLastWrite', 'ReadIsWrite', 'OnlyWhatFits', 'FlipTwice']


def names(exp):
    return dict(exp, ln=sorted({n for e in exp['els'] if e['k'] == 'l' for n in e['nm']}), tn=sorted({n for e in exp['els'] if e['k'] == 't' for n in e['nm']}))


def compare(exp, m, scale, where, loose=()):
    """Elements and their names; groups without elements do not matter."""
    ln, tn = ({k: v for k, v in g.items() if len(v)} for g in (m.physical_to_lines, m.physical_to_triangles))
    view = type('view', (), dict(points=m.points, lines=m.lines, triangles=m.triangles, physical_to_lines=ln, physical_to_triangles=tn))
    compare_bags(names(exp), view, scale, loose, where)


def run(ctx):
    import meshio
    import traceon.mesher as M, traceon.util as U
    const = dict(Sim=False, Emit=False, Depth=4 if ctx.quick else 5, Bases='SomeBases', Files='{"vtk", "off"}')
    core.design(ctx, 'FileRoundTrip', 'Init /\\ [][Next]_vars', const, INV, heap='6g', timeout=2500)
    const.update(Sim=True, Emit=True, Depth=9, Files='Formats')
    bs = core.generate(ctx, 'FileRoundTrip', 'InitSim /\\ [][NextSim]_vars', const, num=300 if ctx.quick else 4000, depth=12, parts=4, invariants=INV + ['Done'])
    tmp = tempfile.mkdtemp(dir=ctx.scratch)
    for n, b in enumerate(bs):
        heap, snaps, log = [], [], []
        scale = [1., .5, 2. ** -10, 128.][n % 4]
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        try:
            for o in b['ops']:
                a = o['args']
                log.append((o['op'], {k: v for k, v in a.items() if k in ('i', 'f', 'name', 'g')}))
                ctx.step(dict(history=log))
                m = None
                where = f'{o["op"]} after {log}'
                path = os.path.join(tmp, 'file.' + a['f']) if 'f' in a else None
                old = heap[a['i'] - 1] if 'i' in a else None
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    if o['op'] == 'new':
                        m = M.Mesh(ensure_outward_normals=False, **arrays(a, scale))
                    elif o['op'] == 'flip':
                        m = old.flip_normals()
                    elif o['op'] == 'convert':
                        m = M.Mesh.from_meshio(old.to_meshio())
                    elif o['op'] == 'save':
                        U.Saveable.write(old, os.path.join(tmp, 'saved.bin'))
                        m = U.Saveable.read(os.path.join(tmp, 'saved.bin'))
                        if snapshot(m) != snapshot(old):
                            raise core.Violation('SavedIsLoaded', where)
                    elif o['op'] == 'write':
                        (old.write if len(log) % 2 else old.write_file)(path)
                    elif o['op'] == 'read':
                        if a['name']:
                            m = M.Mesh.read_file(path, name=a['name'])
                        else:
                            m = (M.Mesh.read if len(log) % 2 else M.Mesh.read_file)(path)
                    elif o['op'] == 'import':
                        # an interchange object with named sets of cells
                        x = old.to_meshio()
                        sets = {g: [np.arange(k, len(c.data), 2) for c in x.cells] for k, g in enumerate(a['g'])}
                        x = meshio.Mesh(x.points, x.cells, cell_sets=sets)
                        got = M.Mesh.from_meshio(x)
                        els = [dict(k=e[0], p=e[1], nm=[]) for e in bag(old, scale, where)]
                        for k in 'lt':
                            own = [e for e in els if e['k'] == k]
                            for i, g in enumerate(a['g']):
                                for e in own[i::2]:
                                    e['nm'].append(g)
                        compare(dict(els=els), got, scale, where, [(e['k'], e['p']) for e in els])
                if m is not None:
                    compare(o, m, scale, where)
                    heap.append(m)
                    snaps.append(snapshot(m))
                for k, (x, s) in enumerate(zip(heap, snaps)):
                    if snapshot(x) != s:
                        raise core.Violation('OperandsUnchanged', f'{where}: mesh {k} was modified')
                ctx.count(o['op'] + (' ' + a['f'] if o['op'] == 'read' else ''))
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, dict(history=log, ops=b['ops']))
        ctx.validated += 1
        ctx.sample(b)
    ctx.assumptions += ['the cells a file format can hold are those meshio reads back itself', 'coordinates are exactly representable in every format']
