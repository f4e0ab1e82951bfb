"""C12: histories of Excitation.tla replayed on real excitations of real meshes."""
import numpy as np
import core
from props.meshes import groups

INV = ['ReflectsLast', 'Compaction', 'CurrentOnlyRadial', 'FlagsConsistent', 'OnlyKnown']
METHODS = {'voltage': 'add_voltage', 'voltage function': 'add_voltage', 'bad voltage': 'add_voltage', 'dielectric': 'add_dielectric', 'potential': 'add_magnetostatic_potential',
           'magnetizable': 'add_magnetizable', 'current': 'add_current', 'electrostatic boundary': 'add_electrostatic_boundary', 'magnetostatic boundary': 'add_magnetostatic_boundary'}


def mesh(M, spec, nl, nt, higher):
    """A chain of line elements in the xz plane and a strip of triangles, with the names of the specification."""
    pts = [[1 + i, 0., (i % 3) ** 2 / 4] for i in range(nl + 1)]
    lines = [[i, i + 1] for i in range(nl)]
    if higher:
        for i in range(nl):
            for a in (1 / 3, 2 / 3):
                pts.append([(1 - a) * p + a * q for p, q in zip(pts[i], pts[i + 1])])
            lines[i] += [len(pts) - 2, len(pts) - 1]
    o = len(pts)
    pts += [[2. + i, 0., 5. + (i % 2)] for i in range(nt + 2)]
    tri = [[o + i, o + i + 1, o + i + 2] for i in range(nt)]
    gl, gt = ({n: np.sort(np.array(v)) for n, v in groups(spec[k]).items()} for k in ('gl', 'gt'))
    return M.Mesh(points=np.array(pts), lines=np.array(lines), triangles=np.array(tri), physical_to_lines=gl, physical_to_triangles=gt, ensure_outward_normals=False)


def key(p):
    """An element, whatever its orientation."""
    return tuple(sorted(tuple(np.round(x, 9) + 0.) for x in p))


def run(ctx):
    import traceon.mesher as M, traceon.excitation as E
    T = E.ExcitationType
    kinds = {'fixed': T.VOLTAGE_FIXED, 'fun': T.VOLTAGE_FUN, 'dielectric': T.DIELECTRIC, 'current': T.CURRENT, 'potential': T.MAGNETOSTATIC_POT, 'magnetizable': T.MAGNETIZABLE}
    const = dict(Sim=False, Emit=False, Depth=2 if ctx.quick else 3, NL=3, NT=2, Meshes='SmallMeshes', AllNames='{"a", "b", "c", "zz"}', Values='{0, 1}')
    core.design(ctx, 'Excitation', 'Init /\\ [][Next]_vars', const, INV, heap='6g', timeout=3000)
    const.update(Sim=True, Emit=True, Depth=10, NL=7, NT=6, Meshes='{}', AllNames='{"a", "b", "c", "d", "e", "zz"}', Values='-3..9')
    bs = core.generate(ctx, 'Excitation', 'InitSim /\\ [][NextSim]_vars', const, num=500 if ctx.quick else 12000, depth=13, parts=4, invariants=INV + ['Done'])
    functions = [(lambda x, y, z, k=k: k * x + z) for k in range(13)]
    for n, b in enumerate(bs):
        sym = E.Symmetry.RADIAL if b['sym'] == 'radial' else E.Symmetry.THREE_D
        m = mesh(M, b['mesh'], 7, 6, n % 2 == 1)
        els0 = {'l': m.points[m.lines], 't': m.points[m.triangles]}
        kind = 'l' if b['sym'] == 'radial' else 't'
        touched = {'l': set(), 't': set()}
        excs = [E.Excitation(m, sym) for _ in range(2)]
        log = []
        try:
            for o in b['ops']:
                log.append((o['op'], o['k'], o['names'], o['values'], 'ok' if o['ok'] else 'rejected'))
                ctx.step(dict(mesh=b['mesh'], symmetry=b['sym'], history=log))
                where = f'{o["op"]} of {o["names"]} after {log[:-1]}, {b["sym"]}, mesh {b["mesh"]}'
                e = excs[o['k'] - 1]
                f = getattr(e, METHODS[o['op']])
                val = lambda kd, v: functions[v + 3] if kd == 'fun' else (float(v) / 2 if v % 2 else v)
                bad = False
                try:
                    if 'boundary' in o['op']:
                        # which elements the call may turn around
                        for g, kk in (('gl', 'l'), ('gt', 't')):
                            for nm in o['names']:
                                touched[kk] |= {int(i) - 1 for i in (b['mesh'][g] or {}).get(nm, [])}
                        f(*o['names'], **({} if len(log) % 2 else dict(ensure_inward_normals=True)))
                    else:
                        kd = {'voltage': 'fixed', 'voltage function': 'fun'}.get(o['op'], '')
                        args = {nm: val(kd, v) for nm, v in zip(o['names'], o['values'])}
                        if o['op'] == 'bad voltage':
                            args[o['names'][0]] = ['12', None, [1.], 1j][len(log) % 4]
                        f(**args)
                except Exception as err:
                    bad = True
                    if o['ok']:
                        raise core.Violation('Accepted', f'{where}: {type(err).__name__} {err}')
                if not o['ok'] and not bad:
                    raise core.Violation('Rejected', f'{where}: was accepted')
                for k, (e, now) in enumerate(zip(excs, o['now'])):
                    w = f'excitation {k + 1} after {where}'
                    types = now['types'] or {}
                    got = dict(e.excitation_types)
                    if set(got) != set(types):
                        raise core.Violation('LastAssignment', f'{w}: names {sorted(got)}, should be {sorted(types)}')
                    for nm, (kd, v) in types.items():
                        t, x = got[nm]
                        exp = functions[v + 3] if kd == 'fun' else (0 if (kd, v) == ('dielectric', 0) else val(kd, v))
                        if t != kinds[kd] or (x is not exp if kd == 'fun' else x != exp):
                            raise core.Violation('LastAssignment', f'{w}: {nm} is {got[nm]}, should be {kd} {v}')
                    fl = now['flags']
                    if (bool(e.is_electrostatic()), bool(e.is_magnetostatic()), bool(e.has_current())) != (fl['elec'], fl['mag'], fl['cur']):
                        raise core.Violation('Flags', f'{w}: {e.is_electrostatic(), e.is_magnetostatic(), e.has_current()}, should be {fl}')
                    for act, fun in (('elec', e.get_electrostatic_active_elements), ('mag', e.get_magnetostatic_active_elements)):
                        active(els0[kind], now[act] or {}, *fun(), f'{w}: {act} active elements')
                for kk, els in (('l', m.points[m.lines]), ('t', m.points[m.triangles])):
                    if els.shape != els0[kk].shape:
                        raise core.Violation('MeshUnchanged', f'{where}: elements appeared or disappeared')
                    for i in range(len(els)):
                        same = np.array_equal(els[i], els0[kk][i])
                        if not same and (i not in touched[kk] or key(els[i]) != key(els0[kk][i])):
                            raise core.Violation('MeshUnchanged', f'{where}: element {kk}{i} is {els[i].tolist()}, was {els0[kk][i].tolist()}')
                ctx.count(o['op'] + ('' if o['ok'] else ' rejected'))
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, dict(behaviour=b, history=log))
        ctx.validated += 1
        ctx.sample(b)
    ctx.assumptions += ['names given a surface excitation have elements of the kind the symmetry uses']


def active(els, exp, vertices, names, where):
    want = {n: [key(els[i - 1]) for i in v] for n, v in exp.items()}
    union = sorted({key(els[i - 1]) for v in exp.values() for i in v})
    got = [key(v) for v in vertices]
    if sorted(got) != union:
        raise core.Violation('ActiveElements', f'{where}: {len(got)} elements ({len(set(got))} distinct), should be {len(union)}')
    if {n for n in names if len(names[n])} != {n for n in want if want[n]}:
        raise core.Violation('ActiveElements', f'{where}: names {sorted(names)}, should be {sorted(want)}')
    for n in want:
        idx = np.asarray(names.get(n, [])).ravel()
        if len(idx) and not (0 <= idx.min() and idx.max() < len(got)):
            raise core.Violation('ActiveElements', f'{where}: {n} refers to element {idx.max()} of {len(got)}')
        if sorted(got[int(i)] for i in idx) != sorted(want[n]):
            raise core.Violation('ActiveElements', f'{where}: {n} maps to the wrong elements')
