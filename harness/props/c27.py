"""C27: tables of terms and charges of Series3D.tla evaluated by the real code."""
import math
import numpy as np
import core
from props import flight
from props.c21 import one_step, EM, MU0

CLAUSES = ['TablePotential', 'TableField', 'SeriesIsPotential', 'Ratio', 'Phase', 'Recurrence', 'OneStep', 'EnergyKept', 'Inside']
q = lambda v: int(np.clip(round(float(v)), -2e9, 2e9)) if np.isfinite(v) else 2000000000


def parts(v):
    """A number as a whole part and thousandths."""
    w = q(v)
    return [w, q(1000 * (v - w)) if abs(w) < 1.9e9 else 2000000000]


def polynomial(z, coeffs):
    """Minus the gradient of the expansion, evaluated directly."""
    N, NU, M = len(z) - 1, coeffs.shape[2], coeffs.shape[3]
    nu, m = np.meshgrid(np.arange(NU), np.arange(M), indexing='ij')

    def field(p):
        x, y, s = p[:3]
        if not z[0] <= s <= z[-1]:
            return np.zeros(3)
        i = min(int((s - z[0]) / (z[1] - z[0])), N - 1)
        t = s - z[i]
        w = np.array([t**3, t**2, t, 1.])
        dw = np.array([3 * t**2, 2 * t, 1., 0.])
        A, B = coeffs[i] @ w
        dA, dB = coeffs[i] @ dw
        c = complex(x, y)
        pw = np.array([c**k for k in range(M)])
        lower = np.concatenate([[0], np.arange(1, M) * pw[:-1]])
        r2 = x * x + y * y
        rad = r2**nu
        drad = np.where(nu > 0, nu * r2**np.maximum(nu - 1, 0), 0.)
        Hs = A * pw.real + B * pw.imag
        fx = (drad * 2 * x * Hs + rad * (A * lower.real + B * lower.imag)).sum()
        fy = (drad * 2 * y * Hs + rad * (-A * lower.imag + B * lower.real)).sum()
        fz = (rad * (dA * pw.real + dB * pw.imag)).sum()
        return -np.array([fx, fy, fz])
    return field


def spread(B, charges, rng):
    """Point charges in the form the backend takes them: weights and positions per element."""
    n = B.N_TRIANGLE_QUAD
    N = -(-len(charges) // n) if rng.random() < .5 else len(charges)
    jac, pos = np.zeros((N, n)), np.ones((N, n, 3)) * [3., 4., 5.]
    per = rng.uniform(.5, 2., N)
    for k, c in enumerate(charges):
        h, j = (k // n, k % n) if N < len(charges) else (k, int(rng.integers(n)))
        if N == len(charges) == 1:
            h = 0
        jac[h, j] = c['q'] / per[h]
        pos[h, j] = np.array(c['at']) / 10.
    return per, jac, pos


def run(ctx):
    import traceon.backend as B, traceon.tracing as T
    from scipy.interpolate import CubicSpline
    NU, M = B.NU_MAX, B.M_MAX
    const = dict(Sim=False, Emit=False, TraceMode=False, NuMax=NU - 1, MMax=M - 1, Size=1, MaxTerms=2)
    design = ['Euler', 'Turning', 'AlongAxis', 'Quarter4', 'Laplace']
    core.design(ctx, 'Series3D', 'Init /\\ [][Next]_vars', const, design)
    core.design(ctx, 'Series3D', 'Init /\\ [][Next]_vars', dict(const, NuMax=2, MMax=3, Size=2 if ctx.quick else 4), design)
    const.update(Sim=True, Emit=True)
    bs = core.generate(ctx, 'Series3D', 'InitSim /\\ [][NextSim]_vars', const, num=500 if ctx.quick else 8000, depth=3, parts=4)
    rng = np.random.default_rng(ctx.seed)
    traces, names = [], []
    for b in bs:
        ctx.step(b)
        ev = []
        if b['what'] == 'table':
            N, dz = b['N'], b['dz']
            z = b['z0'] + dz * np.arange(N + 1.)
            C = np.zeros((N, 2, NU, M, 4))
            for t in b['ts']:
                C[t['i'] - 1, t['c'] - 1, t['nu'], t['m'], 3 - t['k']] += t['a']
            for p in b['places']:
                s = z[p['i'] - 1] + p['z'] if p['out'] == 0 else z[0] - .5 if p['out'] < 0 else z[-1] + .5
                x = np.array([p['x'], p['y'], s], dtype=float)
                ev.append(dict(k='table', p=p, v=parts(B.potential_3d_derivs(x, z, C)), f=[parts(v) for v in B.field_3d_derivs(x, z, C)]))
            traces.append(dict(N=N, dz=dz, ts=b['ts'], electric=False, tol=0, ev=ev))
            names.append(f'expansion with terms {b["ts"]} on {N} intervals of {dz} from {b["z0"]}')
            ctx.count('tables')
            continue
        charges = b['q']
        per, jac, pos = spread(B, charges, rng)
        zs = np.linspace(-.4, .4, 41)
        A = B.axial_coefficients_3d(per, jac, pos, zs)
        size = sum(abs(c['q']) / np.linalg.norm(np.array(c['at'][:2]) / 10.) for c in charges) / 4 / np.pi
        C = np.moveaxis(CubicSpline(zs, A).c, 0, -1)
        near = min(c['at'][0]**2 + c['at'][1]**2 for c in charges)
        for p in b['places']:
            x = np.array(p) / 10.
            direct = sum(c['q'] / np.linalg.norm(np.array(c['at']) / 10. - x) for c in charges) / 4 / np.pi
            ev.append(dict(k='series', series=q(1e7 * B.potential_3d_derivs(x, zs, C) / size), direct=q(1e7 * direct / size), r2=p[0]**2 + p[1]**2, R2=near))
        if len(charges) == 1:
            x, y, h = charges[0]['at']
            g = math.gcd(x, y)
            for i in (0, 20, 33):
                # amplitudes, with the sign in the direction of the charge
                a = A[i, 0, 0] * np.cos(np.arange(M) * math.atan2(y, x)) + A[i, 1, 0] * np.sin(np.arange(M) * math.atan2(y, x))
                rho, R2 = math.hypot(x, y) / 10., (x * x + y * y) / 100. + (h / 10. - zs[i])**2
                for m in range(M - 1):
                    ev.append(dict(k='ratio', m=m, v=q(1e6 * a[m + 1] / a[m] * R2 / rho)))
                ln = math.isqrt((x // g)**2 + (y // g)**2)
                if ln in (1, 5) and ln**2 == (x // g)**2 + (y // g)**2:
                    for m in range(M):
                        u = A[i, :, 0, m] / a[m]
                        ev.append(dict(k='turn', x=x // g, y=y // g, len=ln, m=m, v=[q(1e4 * u[0]), q(1e4 * u[1])]))
        # Coefficients with their derivatives, by Chebyshev polynomials
        cz = .4 * np.cos(np.pi * (np.arange(24) + .5) / 24)
        Ac = B.axial_coefficients_3d(per, jac, pos, cz)
        for nu in range(1, NU):
            for m in range(M):
                for c in (0, 1):
                    prev = np.polynomial.Chebyshev.fit(cz, Ac[:, c, nu - 1, m], 23, domain=[-.4, .4]).deriv(2)(cz)
                    nxt = 4 * nu * (m + nu) * Ac[:, c, nu, m]
                    i = int(rng.integers(6, 18))
                    big = max(np.abs(nxt).max(), np.abs(prev).max())
                    # cancelling charges leave nothing but rounding
                    if big > 1e-6 * np.abs(Ac[:, :, nu - 1, m]).max():
                        ev.append(dict(k='recur', second=q(1e6 * prev[i] / big), next=q(1e6 * nxt[i] / big)))
        electric = False
        tol = 0
        traces.append(dict(N=1, dz=1, ts=[], electric=electric, tol=tol, ev=ev))
        names.append(f'charges {charges}')
        ctx.count('charges')
    # Flights through expansions
    todo = [b for b in bs if b['what'] == 'charges'][:24 if ctx.quick else 200]
    for k, b in enumerate(todo):
        z = np.linspace(-1.5, 1.5, 60)
        per, jac, pos = spread(B, b['q'], rng)
        C = np.moveaxis(CubicSpline(z, B.axial_coefficients_3d(per, jac, pos, z)).c, 0, -1)
        C2 = np.moveaxis(CubicSpline(z, B.axial_coefficients_3d(per, jac, pos[:, :, [1, 0, 2]], z)).c, 0, -1)
        electric, magnetic = k % 3 != 1, k % 3 != 0
        eV = float(rng.choice([60., 500., 3000.]))
        big = sum(abs(c['q']) for c in b['q'])
        elec = C * (40. * eV / 500 / big if electric else 0.)
        mag = C2 * (3e5 * math.sqrt(eV / 500) / big if magnetic else 0.)

        class Field:
            electrostatic_coeffs, magnetostatic_coeffs = elec, mag
        Field.z = z
        fe, fm = polynomial(z, elec), polynomial(z, mag)
        acc = lambda y: EM * (fe(y) + MU0 * np.cross(y[3:], fm(y)))
        d = np.array([rng.uniform(-.15, .15), rng.uniform(-.15, .15), 1. if k % 2 else -1.])
        p0 = np.array([rng.uniform(-.2, .2), rng.uniform(-.2, .2), -1.2 if k % 2 else 1.2])
        bounds = np.array([[-.5, .5], [-.6, .55], [-1.4, 1.4]])
        ctx.step(dict(flight=b['q'], eV=eV))
        atol = 1e-9
        t, p = T.Tracer3DAxial(Field, bounds)(p0, T.velocity_vec(eV, d), atol=atol)
        v0 = flight.speed(eV)
        kin = flight.energies(p)
        ev = []
        inside = lambda x: bool(np.all(bounds[:, 0] <= x[:3]) and np.all(x[:3] <= bounds[:, 1]))
        idx = np.unique(np.concatenate([[0, len(t) - 1, len(t) - 2], rng.integers(0, len(t), 10)]))
        for i in idx:
            pot = 0.
            if all(z[0] <= s <= z[-1] for s in p[i, 2:3]):
                pot = B.potential_3d_derivs(p[i, :3], z, elec)
            e = dict(k='step', kin=q(1e6 * kin[i] / eV), pot=q(1e6 * pot / eV), pos=0, vel=0, inside=inside(p[i]))
            if i:
                h = t[i] - t[i - 1]
                y = one_step(acc, p[i - 1], h)
                e.update(pos=q(100 * np.abs(y[:3] - p[i, :3]).max() / (atol + 1e-12)), vel=q(100 * np.abs(y[3:] - p[i, 3:]).max() / (atol / h + 1e-10 * v0)))
            ev.append(e)
        traces.append(dict(N=1, dz=1, ts=[], electric=bool(electric), tol=q(5 + 2e6 * len(t) * atol / .01), ev=ev))
        names.append(f'flight with {eV} eV from {p0.tolist()} along {d.tolist()} near {b["q"]}')
        ctx.count('flights')
    core.accept(ctx, 'Series3D', traces, dict(Sim=False, Emit=False, TraceMode=True, NuMax=NU - 1, MMax=M - 1, Size=1, MaxTerms=1), CLAUSES, spec='TraceInit /\\ [][TraceNext]_vars', events=lambda t: t['ev'], names=names, what='')
    ctx.assumptions += ['charges at least 2 from the axis, probes up to 0.57 from it', 'derivatives along the axis by Chebyshev polynomials, up to three millionths']
