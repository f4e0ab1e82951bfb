"""C13: scenes of Superposition.tla, their unit fields and settings, solved with the real solvers."""
import numpy as np
import core
from props import scenes

INV = ['CombineIsDirect', 'OnePerSource']


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    const = dict(Sim=False, Emit=False, Depth=2, Scenes0='SmallScenes', Kinds='{"fixed"}', Most=3, Vals='-1..1')
    core.design(ctx, 'Superposition', 'Init /\\ [][Next]_vars', const, INV)
    const.update(Sim=True, Emit=True, Depth=4, Most=4, Vals='-4..4', Kinds='{"fixed", "dielectric", "potential", "current", "magnetizable"}')
    bs = core.generate(ctx, 'Superposition', 'InitSim /\\ [][NextSim]_vars', const, num=1000 if ctx.quick else 16000, depth=8, parts=4, invariants=INV + ['Done'])
    rng = np.random.default_rng(ctx.seed)
    for b in bs:
        sc, names = b['scene'], b['scene']['names']
        ctx.step(b)
        try:
            m = scenes.mesh(G, sc)
            exc = scenes.excitation(E, sc, m)
            before = dict(exc.excitation_types)
            pts = scenes.points(sc, rng, 6)
            units = [i for i, u in enumerate(b['units']) if u]
            fields = S.solve_direct_superposition(exc)
            where = f'scene {sc}'
            if sorted(fields) != sorted(names[i]['nm'] for i in units):
                raise core.Violation('OneFieldPerSource', f'{where}: {sorted(fields)}, should be {[names[i]["nm"] for i in units]}')
            if exc.excitation_types != before:
                raise core.Violation('ExcitationUnchanged', f'{where}: {exc.excitation_types}, was {before}')
            vals = {i: scenes.evaluate(fields[names[i]['nm']], pts) for i in units}
            value = lambda w, i: w / names[i]['v'][1]

            def direct(w):
                """Solving with these values for the sources."""
                v = [float(w[i]) if n['kind'] not in ('dielectric', 'magnetizable') else scenes.number(n['v']) for i, n in enumerate(names)]
                return scenes.evaluate(S.solve_direct(scenes.excitation(E, sc, m, v)), pts)
            for i in units:
                d = scenes.differ(vals[i], direct([float(j == i) for j in range(len(names))]), 1e-7)
                if d:
                    raise core.Violation('UnitField', f'{where}: unit field of {names[i]["nm"]}, {d} ({[p.tolist() for p in pts]})')
            for k, s in enumerate(b['settings']):
                w = [value(x, i) for i, x in enumerate(s['vals'])]
                exp = direct(w)
                got = sum((w[i] * vals[i] for i in units), np.zeros_like(exp))
                d = scenes.differ(got, exp, 1e-7)
                if d is None and units:
                    # the same with arithmetic on the fields
                    f = None
                    for i in units:
                        t = w[i] * fields[names[i]['nm']] if k % 2 else fields[names[i]['nm']] * w[i]
                        f = t if f is None else f + t
                    d = scenes.differ(scenes.evaluate(f, pts), exp, 1e-7)
                if d:
                    raise core.Violation('CombineIsDirect', f'{where}: values {w}, {d} ({[p.tolist() for p in pts]})')
                ctx.count('settings')
            ctx.count(sc['sym'])
            for n in names:
                ctx.count(n['kind'])
        except core.Violation as v:
            ctx.violation(v.clause, v.detail, b)
        ctx.validated += 1
        ctx.sample(b)
    ctx.assumptions += ['equality up to 1e-7 of the largest value among the sampled points']
