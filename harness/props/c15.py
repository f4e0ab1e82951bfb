"""C15: schedules of SplitCollect.tla forced on the real threads, and results for all thread settings."""
import os, threading, time
import numpy as np
import core
from props import scenes

INV = ['Partition', 'NoEmptyChunk', 'InOrder', 'Surfaces', 'NothingLeftBehind']


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Gate:
    """Lets the workers begin and end in the order of the events, as far as the code under test allows: an event
    that does not come is not waited for longer than `patience` (the order is then not the prescribed one)."""

    def __init__(self, events, patience=.25):
        self.events, self.pos, self.cond, self.patience, self.missed = events, 0, threading.Condition(), patience, 0

    def reach(self, kind, c, i):
        key = dict(e=kind, c=c, i=i)
        with self.cond:
            if key not in self.events[self.pos:]:
                return
            end = time.time() + self.patience
            while key != self.events[self.pos]:
                left = end - time.time()
                if left <= 0 or not self.cond.wait(left):
                    # the earlier events are not going to happen while this one is waiting
                    self.missed += 1
                    self.pos = next((k for k in range(self.pos, len(self.events)) if self.events[k] == key), None) or self.pos
                    if key not in self.events[self.pos:]:
                        return
                    break
                if key not in self.events[self.pos:]:
                    return
            self.pos += 1
            self.cond.notify_all()
            if self.pos >= len(self.events):
                self.events.append(None)


def schedule(ctx, U, b, n):
    """One behaviour: every caller in a thread of its own, workers in the prescribed order."""
    os.environ['TRACEON_THREADS'] = str(b['threads'])
    gate = Gate(list(b['events']))
    outcome, calls, lock = {}, {}, threading.Lock()

    def call(c, spec):
        firsts = {ch[0]: i + 1 for i, ch in enumerate(spec['chunks']) if ch}
        bad = {}
        calls[c] = []

        def f(items):
            items = np.asarray(items)
            with lock:
                calls[c].extend(items.tolist())
            i = firsts.get(int(items[0]) if len(items) else None, 1 if not len(items) else 0)
            gate.reach('begin', c, i)
            wrong = sorted(set(items.tolist()) & set(spec['bad']))
            if wrong:
                e = (BaseBoom if n % 5 == 4 else Boom)(wrong)
                with lock:
                    bad[id(e)] = e
                gate.reach('fail', c, i)
                raise e
            gate.reach('end', c, i)
            return 10 * items
        try:
            r = U.split_collect(f, np.arange(1, spec['n'] + 1))
            outcome[c] = ('value', [int(x) for x in np.concatenate([np.atleast_1d(x) for x in r])] if len(r) else [])
        except BaseException as e:
            outcome[c] = ('error', e, list(bad.values()))
    ts = [threading.Thread(target=call, args=(c + 1, s), daemon=True) for c, s in enumerate(b['callers'])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    where = f'{b["threads"]} threads, {b["callers"]}, order {[(e["e"], e["c"], e["i"]) for e in b["events"]]}'
    for c, s in enumerate(b['callers'], 1):
        if c not in outcome:
            raise core.Violation('Terminates', f'{where}: caller {c} did not return')
        o = outcome[c]
        if s['bad']:
            if o[0] != 'error':
                raise core.Violation('Surfaces', f'{where}: caller {c} got {o[1]} although the worker for {s["bad"]} failed')
            if not any(o[1] is e for e in o[2]):
                raise core.Violation('Surfaces', f'{where}: caller {c} got {o[1]!r}, the workers raised {o[2]}')
        else:
            if o[0] != 'value' or o[1] != list(s['value']):
                raise core.Violation('InOrder', f'{where}: caller {c} got {o[:2]}, should be {s["value"]}')
            if sorted(calls[c]) != list(range(1, s['n'] + 1)):
                raise core.Violation('Once', f'{where}: items {sorted(calls[c])} were computed, of {s["n"]}')
    ctx.count('schedules as prescribed' if not gate.missed else 'schedules not realised')


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.interpolation as I, traceon.util as U, traceon.backend as B, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    const = dict(Sim=False, Emit=False, Callers='{1}', MaxItems=5 if ctx.quick else 7, MaxThreads=4 if ctx.quick else 5)
    core.design(ctx, 'SplitCollect', 'Init /\\ [][Next]_vars', const, INV + ['Once'], view='view')
    const.update(MaxItems=3, MaxThreads=3)
    core.design(ctx, 'SplitCollect', 'Init /\\ [][Next]_vars /\\ Fair', const, INV, ['Terminates'])
    const.update(Callers='{1, 2}', MaxItems=2 if ctx.quick else 3, MaxThreads=2)
    core.design(ctx, 'SplitCollect', 'Init /\\ [][Next]_vars', const, INV, view='view')
    const.update(Sim=True, Emit=True, Callers='{1}', MaxItems=9, MaxThreads=6)
    num = 250 if ctx.quick else 4000
    bs = core.generate(ctx, 'SplitCollect', 'InitSim /\\ [][NextSim]_vars', const, num=num, depth=60, parts=4, invariants=INV + ['Once', 'Done'])
    const.update(Callers='{1, 2}', MaxItems=6, MaxThreads=4)
    bs += core.generate(ctx, 'SplitCollect', 'InitSim /\\ [][NextSim]_vars', const, num=num, depth=80, parts=4, invariants=INV + ['Once', 'Done'])
    const.update(Callers='{1, 2}', MaxItems=40, MaxThreads=24)
    bs += core.generate(ctx, 'SplitCollect', 'InitSim /\\ [][NextSim]_vars', const, num=num // 4, depth=300, parts=4, invariants=['InOrder', 'Surfaces', 'Done'])
    hook = threading.excepthook
    threading.excepthook = lambda *a: None
    late = 0
    try:
        for n, b in enumerate(bs):
            ctx.step(b)
            t = time.time()
            try:
                schedule(ctx, U, b, n)
            except core.Violation as v:
                ctx.violation(v.clause, v.detail, b)
            ctx.validated += 1
            ctx.sample(b)
            late += time.time() - t
            if late > (120 if ctx.quick else 3000):      # the code does not run workers side by side: enough
                break
    finally:
        threading.excepthook = hook
    settings(ctx, G, E, S, I, B)


def settings(ctx, G, E, S, I, B):
    """Matrices, fields and interpolations for every number of threads; workers that fail inside."""
    kinds = '{"fixed", "dielectric", "potential", "current", "magnetizable"}'
    sc = core.generate(ctx, 'Superposition', 'InitSim /\\ [][NextSim]_vars', dict(Sim=True, Emit=True, Depth=1, Scenes0='{}', Most=4, Vals='1..4', Kinds=kinds), num=250 if ctx.quick else 2500, depth=4, parts=4)
    rng = np.random.default_rng(ctx.seed)
    counts = [1, 2, 3, 4, 7, 16, 64, None]
    for b in sc[:30 if ctx.quick else 400]:
        s = b['scene']
        ctx.step(dict(scene=s, settings=counts))
        size = [.3, 1., 6., 50.][int(rng.integers(4))] if s['sym'] == 'radial' else [1., 3.][int(rng.integers(2))]
        m = scenes.mesh(G, s, size)
        exc = scenes.excitation(E, s, m)
        pts = scenes.points(s, rng, 4)
        N = int(rng.integers(2, 12))
        z = (-1.3, scenes.PITCH * scenes.slots(s) + .3)
        ref = None
        for T in counts:
            if T is None:
                os.environ.pop('TRACEON_THREADS', None)
            else:
                os.environ['TRACEON_THREADS'] = str(T)
            f = S.solve_direct(exc)
            r = [scenes.evaluate(f, pts)]
            for c in ('electrostatic_point_charges', 'magnetostatic_point_charges'):
                r.append(np.array(getattr(f, c).charges))
            if s['sym'] == 'radial':
                a = I.FieldRadialAxial(f, *z, N)
                r += [a.z, a.electrostatic_coeffs, a.magnetostatic_coeffs]
            if ref is None:
                ref = r
            elif not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(ref, r)):
                ctx.violation('SameForAllThreads', f'scene {s}, mesh size factor {size}: {T} threads give another result than 1', dict(scene=s, threads=T))
            ctx.count('settings')
        if s['sym'] == 'radial' and f.is_electrostatic():
            failing(ctx, S, I, B, f, exc, z, N, rng)
        ctx.validated += 1
    os.environ['TRACEON_THREADS'] = '4'


def failing(ctx, S, I, B, f, exc, z, N, rng):
    for T in (1, 2, 5):
        os.environ['TRACEON_THREADS'] = str(T)
        raised = []

        class Field(S.FieldRadialBEM):
            def get_electrostatic_axial_potential_derivatives(self, zs):
                zs_ = np.atleast_1d(zs)
                if np.any(np.isclose(zs_, bad)):
                    raised.append(Boom(bad))
                    raise raised[-1]
                return super().get_electrostatic_axial_potential_derivatives(zs)
        g = Field(f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges)
        bad = np.linspace(*z, N)[int(rng.integers(N))]
        caught(ctx, lambda: I.FieldRadialAxial(g, *z, N), raised, f'an interpolation whose derivatives cannot be computed at z={bad}, {T} threads')
        # a worker that fails while it fills the matrix
        original = B.fill_matrix_radial
        raised2 = []
        chosen = int(rng.integers(T))

        def fill(*args):
            if len(raised2) == 0 and fill.count == chosen:
                raised2.append(Boom('rows'))
                raise raised2[-1]
            fill.count += 1
            return original(*args)
        fill.count = 0
        B.fill_matrix_radial = fill
        try:
            caught(ctx, lambda: S.solve_direct(exc), raised2, f'a worker that fails filling the matrix, {T} threads')
        finally:
            B.fill_matrix_radial = original


def caught(ctx, fun, raised, what):
    hook = threading.excepthook
    threading.excepthook = lambda *a: None
    try:
        fun()
        err = None
    except Boom as e:
        err = e
    except Exception as e:
        err = e
    finally:
        threading.excepthook = hook
    if raised and not any(err is e for e in raised):
        ctx.violation('Surfaces', f'{what}: {"returned" if err is None else repr(err)}, the worker raised {raised}')
    ctx.count('failures' if raised else 'failures not reached')
