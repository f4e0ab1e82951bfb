"""C21: flights of the real tracer against the laws of Motion.tla."""
import numpy as np
import core
from props import flight, scenes

CLAUSES = ['StartEnergy', 'StartDirection', 'Energy', 'SpeedConstant', 'OneStep', 'StepLimit', 'UniformElectric', 'UniformMagnetic', 'Agree']
Q, ME, MU0 = 1.602176634e-19, 9.1093837139e-31, 1.25663706127e-6
EM = -Q / ME


def acceleration(f, mu=MU0):
    """Of an electron, from the fields at a point: V/mm and A/mm."""
    elec = f.is_electrostatic()
    mag = f.is_magnetostatic()

    def a(y):
        p = np.array(y[:3])
        r = np.zeros(3)
        if elec:
            r = r + f.electrostatic_field_at_point(p)
        if mag:
            r = r + np.cross(y[3:], mu * f.magnetostatic_field_at_point(p))
        return EM * r
    return a


GL = None


def one_step(acc, y, h):
    """Integrate one step by splitting it into 4 steps of the classical method and Richardson extrapolation."""
    def rk(y, h):
        f = lambda y: np.concatenate([y[3:], acc(y)])
        k1 = f(y)
        k2 = f(y + h / 2 * k1)
        k3 = f(y + h / 2 * k2)
        k4 = f(y + h * k3)
        return y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    a = rk(rk(y, h / 2), h / 2)
    b = y
    for _ in range(4):
        b = rk(b, h / 4)
    return b + (b - a) / 15


def problems(G, E, S, I):
    """Fields to fly through near the axis: name -> (field, has electric part, has magnetic part)."""
    P = G.Path
    a = P.line([2., 0., -2.], [3., 0., -1.]); a.name = 'a'
    b = P.rectangle_xz(1.5, 2.5, 1., 2.); b.name = 'b'
    c = G.Surface.rectangle_xz(2., 3., -.5, .5); c.name = 'c'
    d = P.rectangle_xz(2., 3., 3., 4.); d.name = 'd'
    m = a.mesh(mesh_size=.6) + b.mesh(mesh_size=.6) + c.mesh(mesh_size=.5) + d.mesh(mesh_size=.6)

    def radial(**kw):
        e = E.Excitation(m, E.Symmetry.RADIAL)
        for k, v in kw.items():
            getattr(e, k)(**v)
        return S.solve_direct(e)
    r = {'electric': radial(add_voltage=dict(a=12, b=-20)),
         'dielectric': radial(add_voltage=dict(a=-15.), add_dielectric=dict(b=5)),
         'coil': radial(add_current=dict(c=900.)),
         'coil and iron': radial(add_current=dict(c=700.), add_magnetizable=dict(d=20)),
         'poles': radial(add_magnetostatic_potential=dict(a=400., d=-500.)),
         'both': radial(add_voltage=dict(a=-10, b=14), add_current=dict(c=-800.))}
    for k in ('electric', 'coil', 'both', 'poles'):
        r['axial ' + k] = I.FieldRadialAxial(r[k], -5., 5., 120)
    x = G.Surface.rectangle_xy(-1., 1., -1., 1.).move(dx=2.6, dz=1.); x.name = 'x'
    y = G.Surface.box([-2.5, -1., -2.], [-1.5, 1., 0.]); y.name = 'y'
    m3 = x.mesh(mesh_size=1.) + y.mesh(mesh_size=1.)
    e = E.Excitation(m3, E.Symmetry.THREE_D)
    e.add_voltage(x=-12, y=17.)
    r['3d electric'] = S.solve_direct(e)
    e = E.Excitation(m3, E.Symmetry.THREE_D)
    e.add_magnetostatic_potential(x=500, y=-300.)
    r['3d poles'] = S.solve_direct(e)
    e = E.Excitation(m3, E.Symmetry.THREE_D)
    e.add_magnetostatic_potential(x=500)
    e.add_voltage(y=11)
    r['3d both'] = S.solve_direct(e)
    # equally many charges of both kinds
    e = E.Excitation(m3, E.Symmetry.THREE_D)
    e.add_magnetostatic_potential(x=600., y=800.)
    r['3d alike'] = r['3d electric'] + S.solve_direct(e)
    r['alike'] = radial(add_voltage=dict(a=-11., b=7.)) + radial(add_magnetostatic_potential=dict(a=300., b=700.))
    r['axial alike'] = I.FieldRadialAxial(r['alike'], -5., 5., 120)
    return r


def run(ctx):
    import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.interpolation as I, traceon.tracing as T, traceon.logging as L
    L.set_log_level(L.LogLevel.SILENT)
    fields = problems(G, E, S, I)
    const = dict(Sim=False, Emit=False, TraceMode=False, MaxSteps=6 if ctx.quick else 20, Fields='-3..3', Speeds='1..4', Kinds='{}', Flights=0)
    core.design(ctx, 'Motion', 'Init /\\ [][Next]_vars', const, ['Parabola', 'EnergyKept', 'Returns'])
    kinds = '{' + ', '.join(f'"{k}"' for k in fields) + '}'
    const.update(Sim=True, Emit=True, Kinds=kinds, Flights=6)
    bs = core.generate(ctx, 'Motion', 'InitSim /\\ [][Flight]_vars', const, num=36 if ctx.quick else 400, depth=8, parts=2)
    rng = np.random.default_rng(ctx.seed)
    traces, names = [], []
    q = lambda v: int(np.clip(round(float(v)), -2e9, 2e9)) if np.isfinite(v) else 2000000000
    for fl in [f for b in bs for f in b['flights']]:
        ctx.step(fl)
        f, kind = fields[fl['kind']], fl['kind']
        electric, magnetic = f.is_electrostatic(), f.is_magnetostatic()
        # Magnetic fields must be too weak to trap the electron: orbits do not fit between the bounds
        strong, eV = (fl['strong'], fl['eV']) if not magnetic else (.2, max(fl['eV'], 100))
        f = f * float(strong)
        atol = 10. ** -fl['atol']
        p0 = np.array([fl['x'], fl['y'], fl['z']]) / 10.
        d = np.array(fl['dir'], dtype=float)
        w = .8
        if 'axial' not in kind:             # also close to the electrodes
            p0[:2] *= 1.6
            w = 1.
        bounds = [[-w, w], [-w, w], [-4.5, 4.5]]
        t, p = f.get_tracer(bounds)(p0, T.velocity_vec(eV, d), atol=atol)
        v0 = flight.speed(eV)
        acc = acceleration(f)
        idx = np.unique(np.concatenate([[0, 1, len(t) - 1], rng.integers(0, len(t), 14 if ctx.quick else 40)]))
        kin = flight.energies(p)
        ev = [dict(kin=q(kin[0] / eV * 1e6), pot=q(f.electrostatic_potential_at_point(p[0, :3]) / eV * 1e6), pos=0, vel=0, step=0, dir=q(1e15 * np.max(np.abs(p[0, 3:] / np.linalg.norm(p[0, 3:]) - d / np.linalg.norm(d)) / np.where(d == 0, 1., np.abs(d) / np.linalg.norm(d)))))]
        for i in idx[(idx > 0) & (idx < len(t))]:
            h = t[i] - t[i - 1]
            y = one_step(acc, p[i - 1], h)
            # what the tracer promises, and what the arithmetic can do
            tol = atol + 1e-12
            dp, dv = np.abs(y[:3] - p[i, :3]).max(), np.abs(y[3:] - p[i, 3:]).max()
            ev.append(dict(kin=q(kin[i] / eV * 1e6), pot=q(f.electrostatic_potential_at_point(p[i, :3]) / eV * 1e6), pos=q(100 * dp / tol), vel=q(100 * dv / (tol / h + 1e-10 * v0)), step=q(h * v0 / .01 * 1000)))
        # the interpolated potential has the interpolated field as slope only approximately
        # the errors of all steps may add up: velocity errors are at most atol / h
        tol = 3 + 2e6 * len(t) * atol / .01 + (50 * strong if 'axial' in kind else 0)
        traces.append(dict(what='flight', electric=bool(electric), tol=q(tol), ev=ev))
        names.append(f'{fl}')
        ctx.count(kind)
    # Uniform fields: between large plates, and within a long coil
    top, bottom = G.Path.line([0., 0., 5.], [60., 0., 5.]), G.Path.line([0., 0., -5.], [60., 0., -5.])
    top.name, bottom.name = 'top', 'bottom'
    m = top.mesh(mesh_size=1.) + bottom.mesh(mesh_size=1.)
    coil = G.Surface.rectangle_xz(4., 9., -150., 150.)
    coil.name = 'coil'
    e = E.Excitation(coil.mesh(mesh_size=6. if ctx.quick else 3.), E.Symmetry.RADIAL)
    e.add_current(coil=1.)
    fcoil = S.solve_direct(e)
    facoil = I.FieldRadialAxial(fcoil, -6., 6., 60)
    # the field in the middle of a thick coil of 150 mm on both sides, per ampere
    rs = np.linspace(4., 9., 1001)
    H1 = np.mean(150. / np.hypot(150., rs)) / 300.
    for i in range(12 if ctx.quick else 60):
        u, volt = int(rng.choice([50, 100, 400])), int(rng.choice([-80, -20, 10, 40, 100]))
        e = E.Excitation(m, E.Symmetry.RADIAL)
        e.add_voltage(top=volt / 2, bottom=-volt / 2)
        f = S.solve_direct(e)
        k = rng.uniform(0, 7)
        d = np.array([np.cos(k), np.sin(k), 0.])
        if i % 3 == 2:
            f = I.FieldRadialAxial(f, -4.9, 4.9, 60)
            # its series holds for all radii as all higher derivatives vanish, but only nearly
        bounds = [[-4., 4.], [-4., 4.], [-4., 4.]]
        ctx.step(dict(uniform=volt, u=u))
        t, p = f.get_tracer(bounds)(-.5 * d, T.velocity_vec(float(u), d))
        v0 = flight.speed(u)
        # force on the electron is towards the positive plate; field in V/mm is volt / 10
        ev = [dict(x=q(1000 * (p[j, :3] @ d + .5)), z=q(1000 * p[j, 2]), t=q(1000 * t[j] * v0), vx=q(1000 * (p[j, 3:] @ d) / v0), vz=q(1000 * p[j, 5] / v0)) for j in np.unique(np.linspace(0, len(t) - 1, 25).astype(int))]
        traces.append(dict(what='electric', u=10 * u, e=volt, tol=4, ev=ev))
        names.append(f'between plates with {volt} V, {u} eV, direction {d.tolist()}')
        ctx.count('uniform electric')
    for i in range(4 if ctx.quick else 20):
        amps, u = float(rng.choice([-12000, 6000, 9000, 20000, -30000])), float(rng.choice([60., 200.]))
        f = (facoil if i % 2 else fcoil) * amps
        H = H1 * amps
        v = flight.speed(u)
        a = rng.uniform(.3, 1.2)
        k = rng.uniform(0, 7)
        d = np.array([np.cos(k) * np.sin(a), np.sin(k) * np.sin(a), np.cos(a)])
        # m v^2 / r = e v B; the electron turns with the right hand around the field
        omega = Q / ME * MU0 * H
        vt = v * np.sin(a)
        R = vt / abs(omega)
        vel = v * d
        p0 = np.array([0., 0., -4.])
        centre = p0 + np.cross(vel, [0., 0., -np.sign(omega)]) / np.linalg.norm(vel[:2]) * R * 1.
        ctx.step(dict(solenoid=amps, u=u))
        t, p = f.get_tracer([[-3., 3.], [-3., 3.], [-5., 4.]])(p0, T.velocity_vec(u, d))
        rel = p[:, :2] - centre[:2]
        ang = np.unwrap(np.arctan2(rel[:, 1], rel[:, 0]))
        ang -= ang[0]
        ev = [dict(r=q(1000 * np.linalg.norm(rel[j])), along=q(1000 * (p[j, 2] + 4.)), t=q(1000 * t[j] * v), angle=q(1000 * ang[j])) for j in np.unique(np.linspace(0, len(t) - 1, 25).astype(int))]
        traces.append(dict(what='magnetic', radius=q(1000 * R), valong=q(1000 * np.cos(a)), omega=q(1000 * omega / v), tol=25, ev=ev))
        names.append(f'in a coil with {amps} A on 300 mm, {u} eV, direction {d.tolist()}')
        ctx.count('uniform magnetic')
    # Directly computed and interpolated fields agree near the axis
    for i in range(12 if ctx.quick else 80):
        kind = ['electric', 'coil', 'both', 'poles'][i % 4]
        p0 = np.array([rng.uniform(-.12, .12), rng.uniform(-.12, .12), -4.4])
        d = np.array([rng.uniform(-.02, .02), rng.uniform(-.02, .02), 1.])
        res = []
        ctx.step(dict(agree=kind, start=p0.tolist()))
        for f in (fields[kind], fields['axial ' + kind]):
            t, p = f.get_tracer([[-.6, .6], [-.6, .6], [-4.5, 4.4]])(p0, T.velocity_vec(1000., d))
            x = T.xy_plane_intersection(p, 4.3)
            res.append([q(1e6 * c) for c in x[:3]] + [q(1e6 * c / flight.speed(1000.)) for c in x[3:]])
        traces.append(dict(what='agree', ev=[dict(a=res[0], b=res[1], tol=20)]))
        names.append(f'{kind} and its interpolation from {p0.tolist()} direction {d.tolist()}')
        ctx.count('agreement')
    core.accept(ctx, 'Motion', traces, dict(Sim=False, Emit=False, TraceMode=True, MaxSteps=0, Fields='{0}', Speeds='{1}', Kinds='{}', Flights=0), CLAUSES, spec='TraceInit /\\ [][TraceNext]_vars', events=lambda t: t['ev'], names=names, what='')
    ctx.assumptions += ['single steps: within the requested tolerance', 'uniform fields up to 0.004 (plates) and 0.025 mm (coil)']
