"""C25: verbosity, spec/Logging.tla."""
import json, os, re, subprocess, sys, tempfile, warnings
import numpy as np
import core

ENV = r'''
import sys, json
import traceon.logging as L
say = {0: L.log_debug, 1: L.log_info, 2: L.log_warning, 3: L.log_error}
for s in say:
    say[s](f'message {s}')
import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.tracing as T
print('before operations', file=sys.stderr)
m = G.Path.line([1., 0., 0.], [1., 0., 1.])
m.name = 'a'
e = E.Excitation(m.mesh(mesh_size=.5), E.Symmetry.RADIAL)
e.add_voltage(a=1.)
f = S.solve_direct(e)
T.velocity_vec(50000., [0, 0, 1])
'''


class Capture:
    """Everything written to the file descriptors 1 and 2 (the backend may write without Python)."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        import ctypes
        ctypes.CDLL(None).fflush(None)
        os.dup2(self.old[0], 1)
        os.dup2(self.old[1], 2)
        for d in self.old:
            os.close(d)
        self.f.seek(0)
        self.text = self.f.read().decode(errors='replace')
        self.f.close()


def operations(mod):
    G, E, S, I, T, F = mod
    rng = np.random.default_rng(5)

    def path_mesh():
        p = G.Path.line([1., 0., 0.], [2., 0., 1.]).line_to([2., 0., 2.])
        p.name = 'p'
        m = p.mesh(mesh_size=.3)
        return m.points, m.lines

    def surface_mesh():
        s = G.Surface.spanned_by_paths(G.Path.line([0., 0., 0.], [1., 0., 0.]), G.Path.line([0., 1., 0.], [2., 1., 1.]))
        s.name = 's'
        m = s.mesh(mesh_size=.4)
        m = m + G.Surface.sphere(1.).mesh(mesh_size=.7)
        m = m.ensure_outward_normals('s') or m
        return m.points, m.triangles

    def collection():
        c = G.Path.circle_xz(3., 0., 1.) + G.Path.line([0., 0., 0.], [1., 0., 1.])
        m = c.mesh(mesh_size_factor=2, name='c')
        return m.points, m.lines

    def radial():
        a = G.Path.line([1., 0., -1.], [2., 0., 1.]); a.name = 'a'
        b = G.Path.rectangle_xz(3., 4., -1., 1.); b.name = 'b'
        c = G.Surface.rectangle_xz(5., 6., -1., 1.); c.name = 'c'
        d = G.Path.rectangle_xz(3., 4., 2., 3.); d.name = 'd'
        return a.mesh(mesh_size=.5) + b.mesh(mesh_size=.5) + c.mesh(mesh_size=.5) + d.mesh(mesh_size=.5)

    def excite():
        e = E.Excitation(radial(), E.Symmetry.RADIAL)
        e.add_voltage(a=3., b=lambda x, y, z: x)
        e.add_current(c=2.)
        e.add_magnetizable(d=5.)
        try:
            e.add_voltage(nothing=2.)
        except Exception:
            pass
        assert len(str(e)) > 3
        return (sorted(e.excitation_types),)

    def field():
        e = E.Excitation(radial(), E.Symmetry.RADIAL)
        e.add_voltage(a=3., b=lambda x, y, z: x)
        e.add_current(c=2.)
        e.add_magnetizable(d=5.)
        return S.solve_direct(e)

    def values(f, p=(.2, .1, .3)):
        r = [f.electrostatic_potential_at_point(p), f.electrostatic_field_at_point(p), f.magnetostatic_field_at_point(p)]
        return tuple(np.asarray(x) for x in r)

    def solve():
        f = field()
        assert len(str(f)) > 3
        return values(f + 2 * f)

    def solve_graded():
        p = G.Path.line([1., 0., -1.], [2., 0., 1.])
        p.name = 'a'
        e = E.Excitation(p.mesh(mesh_size=.5, higher_order=True), E.Symmetry.RADIAL)
        e.add_voltage(a=2.)
        return values(S.solve_direct(e))

    def boundary():
        b = G.Path.line([2., 0., -1.], [2., 0., 1.]).line_to([0., 0., 1.])
        b.name = 'b'
        a = G.Path.line([.5, 0., -1.], [1.5, 0., -1.]); a.name = 'a'
        e = E.Excitation(a.mesh(mesh_size=.5) + b.mesh(mesh_size=.5), E.Symmetry.RADIAL)
        e.add_voltage(a=2.)
        e.add_electrostatic_boundary('b')
        return values(S.solve_direct(e))

    def three():
        s = G.Surface.rectangle_xy(-1., 1., -1., 1.)
        s.name = 's'
        t = G.Surface.box([2., 2., 2.], [3., 3., 3.])
        t.name = 't'
        return s.mesh(mesh_size=.8) + t.mesh(mesh_size=.8)

    def solve_three():
        e = E.Excitation(three(), E.Symmetry.THREE_D)
        e.add_voltage(s=2.)
        e.add_dielectric(t=3.)
        assert len(str(e)) > 3
        return values(S.solve_direct(e), (.1, .2, .5))

    def superposition():
        e = E.Excitation(radial(), E.Symmetry.RADIAL)
        e.add_voltage(a=3., b=2.)
        e.add_current(c=2.)
        r = S.solve_direct_superposition(e)
        return tuple(x for k in sorted(r) for x in values(r[k]))

    def fallback():
        e = E.Excitation(radial(), E.Symmetry.RADIAL)
        e.add_voltage(a=3., b=2.)
        return values(I.FieldRadialAxial(S.solve_direct(e), -2., 2.))

    def interpolate():
        f = I.FieldRadialAxial(field(), -2., 2., 30)
        assert len(str(f)) > 3
        return values(f + f)

    def trace():
        f = field()
        tr = f.get_tracer([[-.5, .5], [-.5, .5], [-2., 2.]])
        assert len(str(tr)) > 3
        t, p = tr([.1, .1, 1.5], T.velocity_vec(300., [0, 0, -1]))
        q = T.xy_plane_intersection(p, 0.)
        return t, p, q

    def fast():
        return (T.velocity_vec(50000., [0, 0, 1]), T.velocity_vec_spherical(1e5, .1, .2), T.velocity_vec_xz_plane(41000, .1))

    def focus():
        return (F.focus_position([np.array([[0., 0., 0., 0., 0., 1.]]), np.array([[1., 0., 0., 1., 0., 1.]])]),)

    def bounds():
        f = field()
        f.set_bounds([[-1, 1], [-1, 1], [-1, 1]])
        return values(f) + values(f, (2., 0., 0.))
    return {k: v for k, v in locals().items() if callable(v) and v.__name__ not in ('radial', 'field', 'values', 'three') and k != 'mod'}


def severity(line):
    for k, s in (('DEBUG: ', 0), ('WARNING: ', 2), ('ERROR: ', 3)):
        if line.startswith(k):
            return s
    return 1


def run(ctx):
    const = dict(Sim=False, Emit=False, MaxSteps=3 if ctx.quick else 4, Ops='{}')
    core.design(ctx, 'Logging', 'Init /\\ [][Next]_vars', const, ['ExactlyVisible', 'Monotone'], properties=['SilentSaysNothing', 'LevelKept'])
    # At startup
    envs = core.everything(ctx, 'Logging', 'EnvInit /\\ [][FALSE]_vars', dict(const, Emit=True), 'EnvDone')
    base = dict(os.environ, PYTHONPATH=os.path.join(ctx.scratch, 'pkg'))
    base.pop('TRACEON_LOG_LEVEL', None)
    for e in envs:
        for word in {e['env'], e['env'].upper(), e['env'].capitalize()}:
            env = dict(base)
            if e['env'] != 'unset':
                env['TRACEON_LOG_LEVEL'] = word
            ctx.step(dict(environment=word))
            r = subprocess.run([sys.executable, '-c', ENV], env=env, capture_output=True, text=True, timeout=120)
            if r.returncode:
                raise core.Violation('Environment', f'TRACEON_LOG_LEVEL={word!r}: {r.stderr[-600:]}')
            lines = r.stdout.split('\n')[:-1]
            got = [s for s in range(4) if any(f'message {s}' in l for l in lines)]
            if got != [s for s in range(4) if s >= e['level']]:
                raise core.Violation('Environment', f'TRACEON_LOG_LEVEL={word!r} prints messages of severity {got}, level {e["level"]}')
            rest = [l for l in lines if not re.search(r'message \d', l)]
            if any(severity(l) < e['level'] for l in rest):
                raise core.Violation('Environment', f'TRACEON_LOG_LEVEL={word!r} prints {rest}')
            if e['level'] <= 2 and not any('WARNING' in l and '50000' in l for l in rest):
                raise core.Violation('Environment', f'TRACEON_LOG_LEVEL={word!r}: no warning about the energy in {rest}')
            ctx.count('environment')
        ctx.validated += 1
    warnings.simplefilter('ignore')
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.interpolation as I, traceon.tracing as T, traceon.focus as F, traceon.logging as L
    ops = operations((G, E, S, I, T, F))
    say = [L.log_debug, L.log_info, L.log_warning, L.log_error]
    normal = lambda s: [re.sub(r'[\d.e+-]+', '#', l) for l in s.split('\n') if l]
    ref = {}
    for k, f in ops.items():
        L.set_log_level(L.LogLevel.DEBUG)
        ctx.step(dict(reference=k))
        with Capture() as c:
            v = f()
        ref[k] = (normal(c.text), v)
        ctx.count('messages', len(ref[k][0]))
    const.update(Sim=True, Emit=True, MaxSteps=14, Ops='{' + ', '.join(f'"{k}"' for k in ops) + '}')
    bs = core.generate(ctx, 'Logging', 'InitSim /\\ [][NextSim]_vars', const, num=60 if ctx.quick else 1000, depth=16, parts=2)
    n = 0
    for b in bs:
        L.set_log_level(L.LogLevel.INFO)
        for k, o in enumerate(b):
            ctx.step(b[:k + 1])
            n += 1
            with Capture() as c:
                if o['op'] == 'level':
                    L.set_log_level(L.LogLevel(o['level']))
                elif o['op'] == 'refused':
                    try:
                        L.set_log_level({'int': 2.5, 'name': 'debug', 'none': None}[o['what']])
                        bad = True
                    except Exception:
                        bad = False
                elif o['op'] == 'say':
                    say[o['sev']](f'message {n}')
                else:
                    v = ops[o['what']]()
            if o['op'] == 'say':
                if (f'message {n}' in c.text) != o['visible'] or (not o['visible'] and c.text):
                    raise core.Violation('ExactlyVisible', f'message of severity {o["sev"]} printed as {c.text!r}; should be visible: {o["visible"]} ({b[:k + 1]})')
            elif o['op'] == 'do':
                lines, want = ref[o['what']]
                expect = [l for l in lines if severity(l) >= o['level']]
                if normal(c.text) != expect:
                    raise core.Violation('Silent' if o['level'] == 4 else 'Operation', f'{o["what"]} at level {o["level"]} printed {c.text[:600]!r}, expected {expect}')
                if not same(v, want):
                    raise core.Violation('ResultsUnaffected', f'{o["what"]} at level {o["level"]}')
                ctx.count(f'operations at level {o["level"]}')
            else:
                if c.text:
                    raise core.Violation('Quiet', f'{o} printed {c.text!r}')
                if o['op'] == 'refused' and bad:
                    raise core.Violation('Refused', f'{o} was accepted as a level')
        ctx.validated += 1
        ctx.sample(b)


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'fiu':
            if not np.allclose(x, y, rtol=1e-9, atol=1e-12 * (np.abs(y).max() if y.size else 1)):
                return False
        elif x.tolist() != y.tolist():
            return False
    return True
