"""C22: field bounds, spec/FieldBounds.tla."""
import numpy as np
import core
from props import flight
from props.c21 import acceleration, one_step

CLAUSES = ['StraightOutside', 'FullInside']
INF = 99


def charges(G, E, S):
    """One field of every kind."""
    P = G.Path
    a = P.line([4., 0., -3.], [5., 0., -1.]); a.name = 'a'
    c = G.Surface.rectangle_xz(4., 5., .5, 2.); c.name = 'c'
    m = a.mesh(mesh_size=1.) + c.mesh(mesh_size=1.)

    def radial(**kw):
        e = E.Excitation(m, E.Symmetry.RADIAL)
        for k, v in kw.items():
            getattr(e, k)(**v)
        return S.solve_direct(e)
    x = G.Surface.rectangle_xy(-1., 1., -1., 1.).move(dx=1., dz=5.); x.name = 'x'
    y = G.Surface.rectangle_yz(-1., 1., -1., 1.).move(dx=-5., dy=1.); y.name = 'y'
    m3 = x.mesh(mesh_size=1.) + y.mesh(mesh_size=1.)

    def three(**kw):
        e = E.Excitation(m3, E.Symmetry.THREE_D)
        for k, v in kw.items():
            getattr(e, k)(**v)
        return S.solve_direct(e)
    return {'electric': radial(add_voltage=dict(a=40.)), 'coil': radial(add_current=dict(c=400.)), 'poles': radial(add_magnetostatic_potential=dict(a=90.)),
            'both': radial(add_voltage=dict(a=-30.), add_current=dict(c=-300.)),
            '3d electric': three(add_voltage=dict(x=-30, y=40.)), '3d poles': three(add_magnetostatic_potential=dict(x=150., y=-80)),
            '3d both': three(add_voltage=dict(x=30), add_magnetostatic_potential=dict(y=150.))}


def write(box, form):
    b = [[np.inf if c == INF else -np.inf if c == -INF else c / 2 for c in i] for i in box]
    whole = all(np.isfinite(c) and c == int(c) for i in b for c in i)
    if form == 'list':
        return [[int(c) if np.isfinite(c) and c == int(c) else c for c in i] for i in b]
    if form == 'int':
        return np.array(b, dtype=int) if whole else [tuple(i) for i in b]
    if form == 'transposed':
        return np.array(np.array(b).T, order='C').T
    if form == 'strided':
        z = np.zeros((6, 4))
        z[::2, ::2] = b
        return z[::2, ::2]
    if form == 'single':
        return np.array(b, dtype=np.float32)
    return np.array(b)


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.tracing as T, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    const = dict(Sim=False, Emit=False, TraceMode=False, NFields=1 if ctx.quick else 2, Lo=-4, Hi=4, Inf=INF, Kinds='{}', Forms='{}', Starts='{0}', MaxOps=0)
    core.design(ctx, 'FieldBounds', 'Init /\\ [][SetBounds]_vars', const, ['Convex', 'EmptyBox'], properties=['OthersKept'])
    ref = charges(G, E, S)
    kinds = '{' + ', '.join(f'"{k}"' for k in ref) + '}'
    const.update(Sim=True, Emit=True, NFields=3, Kinds=kinds, Forms='{"array", "list", "int", "transposed", "strided", "single"}', Starts='-2..2', MaxOps=16)
    bs = core.generate(ctx, 'FieldBounds', 'InitSim /\\ [][NextSim]_vars', const, num=100 if ctx.quick else 600, depth=18, parts=2)
    rng = np.random.default_rng(ctx.seed)
    traces, names = [], []
    q = lambda v: int(np.clip(np.round(float(v)), -2e9, 2e9)) if np.isfinite(v) else 2000000000
    for b in bs:
        r = ref[b['kind']]
        fs = [r.__class__(r.electrostatic_point_charges, r.magnetostatic_point_charges, r.current_point_charges) for _ in range(3)]
        acc = acceleration(r)
        for k, o in enumerate(b['ops']):
            ctx.step(dict(kind=b['kind'], ops=b['ops'][:k + 1]))
            f = fs[o['f'] - 1]
            if o['op'] == 'set':
                w = write(o['box'], o['form'])
                f.set_bounds(w)
                if o['change'] and isinstance(w, np.ndarray):
                    w[:] = 0        # the caller's array is his own
                ctx.count('set ' + o['form'])
            elif o['op'] == 'probe':
                p = np.array(o['p']) / 2
                for form in (p, p.tolist()):
                    for which in ('electrostatic', 'magnetostatic'):
                        got = np.asarray(getattr(f, which + '_field_at_point')(form))
                        want = getattr(r, which + '_field_at_point')(p) if o['inside'] else np.zeros(3)
                        if got.shape != (3,) or not np.array_equal(got, want):
                            raise core.Violation('FieldAtPoint', f'{which} field at {p.tolist()}: {got.tolist()}, expected {want.tolist()} (inside: {o["inside"]})')
                ctx.count('probe inside' if o['inside'] else 'probe outside')
            else:
                # Start beyond one side, fly towards the other
                ax, s = o['axis'] - 1, o['sign']
                p0, d = np.zeros(3), np.zeros(3)
                others = [i for i in range(3) if i != ax]
                p0[ax], p0[others] = -2.9 * s, np.array(o['off']) / 2
                d[ax], d[others] = s * 10, o['tilt']
                eV = 400.
                t, p = f.get_tracer([[-3, 3], [-3, 3], [-3, 3]])(p0, T.velocity_vec(eV, d))
                v0 = flight.speed(eV)
                ev = []
                turn = np.abs(np.diff(p[:, 3:], axis=0)).max(axis=1)
                # steps across a face, and some others
                h = np.diff(t)
                ins = np.array([o['box'] == [] or all((x == -INF or x / 2 < c) and (y == INF or c < y / 2) for c, (x, y) in zip(c3, o['box'])) for c3 in p[:, :3]])
                near = np.flatnonzero(ins[1:] != ins[:-1])
                idx = np.concatenate([near - 1, near, near + 1, [0, len(h) - 1], rng.integers(0, len(h), 12 if ctx.quick else 30)])
                for i in np.unique(idx[(idx >= 0) & (idx < len(h))]):
                    y = one_step(acc, p[i], h[i])
                    tol = 1e-10 + 1e-12
                    dp, dv = np.abs(y[:3] - p[i + 1, :3]).max(), np.abs(y[3:] - p[i + 1, 3:]).max()
                    bend = np.abs(p[i, :3] + h[i] * p[i, 3:] - p[i + 1, :3]).max()
                    ev.append(dict(a=[q(1000 * c) for c in p[i, :3]], b=[q(1000 * c) for c in p[i + 1, :3]], turn=q(turn[i] / (1e-14 * v0)), bend=q(100 * bend / 1e-12), face=any(bool(p[i, 3 + j] == 0 and p[i, j] in (x / 2, y / 2)) for j, (x, y) in enumerate(o['box'])),
                                   pos=q(100 * dp / tol), vel=q(100 * dv / (tol / h[i] + 1e-10 * v0))))
                traces.append(dict(box=o['box'], ev=ev))
                names.append(f'{b["kind"]} after {b["ops"][:k]}: {o}')
                ctx.count('flight' + (' through' if ins.any() else ' past'))
        ctx.validated += 1
        ctx.sample(b)
    const.update(Sim=False, Emit=False, TraceMode=True)
    core.accept(ctx, 'FieldBounds', traces, const, CLAUSES, spec='TraceInit /\\ [][TraceNext]_vars', events=lambda t: t['ev'], names=names, what='')
    ctx.assumptions += ['steps that touch the faces of the box are only required to be seamless', 'field bounds are not required to carry over to sums and multiples']
