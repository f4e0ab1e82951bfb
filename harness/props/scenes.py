"""Scenes of Scenes.tla as real geometries, meshes and excitations."""
import numpy as np

PITCH = 8


def shape(G, sym, p):
    z, lo, w, h = float(p['z']), float(p['lo']), float(p['w']), float(p['h'])
    sh = p['sh']
    if sym == 'radial':
        P, S = G.Path, G.Surface
        if sh == 'disk':
            return P.line([lo, 0., z + h / 2], [lo + w, 0., z + h / 2])
        if sh == 'tube':
            return P.line([lo, 0., z], [lo, 0., z + h])
        if sh == 'cone':
            return P.line([lo, 0., z], [lo + w, 0., z + h])
        if sh == 'ring':
            return P.rectangle_xz(lo, lo + w, z, z + h)
        if sh == 'ball':
            r, c = min(w, 2.) * .75, z + 2.
            return P.arc([0., 0., c], [0., 0., c - r], [r, 0., c]).arc_to([0., 0., c], [0., 0., c + r])
        if sh == 'torus':
            return P.circle_xz(lo + 2., z + 2., .5 * min(w, 2.))
        if sh == 'coil':
            return S.rectangle_xz(lo, lo + w, z, z + h)
        if sh == 'round coil':
            return S.disk_xz(lo + 2., z + 2., .5 * w)
    else:
        S = G.Surface
        if sh == 'plate':
            return S.rectangle_xy(-lo, w, -1., float(h)).move(dz=z + h / 2)
        if sh == 'annulus':
            return G.Path.line([lo, 0., 0.], [lo + w, 0., 0.]).revolve_z().move(dz=z + h / 2)
        if sh == 'box':
            return S.box([-lo, 0., z], [w, 2., z + h])
        if sh == 'ball':
            return S.sphere(.75 * min(w, 2.)).move(dx=lo - 2., dz=z + 2.)
    raise KeyError(sh)


def mesh(G, scene, size=1.):
    """One mesh with all parts."""
    m = None
    for p in scene['parts']:
        g = shape(G, scene['sym'], p)
        g.name = p['nm']
        if scene['sym'] == 'radial':
            x = g.mesh(mesh_size=.75 * size if not p['sh'].endswith('coil') else size)
        else:
            x = g.mesh(mesh_size=1.5 * size)
        m = x if m is None else m + x
    return m


def number(v):
    """A value <<numerator, denominator>>: integers as int, others as float."""
    return v[0] if v[1] == 1 else v[0] / v[1]


METHODS = dict(fixed='add_voltage', fun='add_voltage', dielectric='add_dielectric', potential='add_magnetostatic_potential', current='add_current', magnetizable='add_magnetizable')


def assign(exc, names, values=None):
    for i, n in enumerate(names):
        v = number(n['v']) if values is None else values[i]
        getattr(exc, METHODS[n['kind']])(**{n['nm']: v})
    return exc


def excitation(E, scene, m, values=None):
    sym = E.Symmetry.RADIAL if scene['sym'] == 'radial' else E.Symmetry.THREE_D
    return assign(E.Excitation(m, sym), scene['names'], values)


def slots(scene):
    return len(scene['parts'])


def points(scene, rng, n, axis=True):
    """Points in the free space between the slots and around the scene."""
    k = slots(scene)
    res = []
    for _ in range(n):
        z = PITCH * rng.integers(0, k + 1) - rng.uniform(.7, 1.3)
        r, t = rng.uniform(0, 8), rng.uniform(0, 2 * np.pi)
        res.append([r * np.cos(t), r * np.sin(t), z])
    if axis:
        res[0] = [0., 0., PITCH * rng.integers(0, k + 1) - 1.]
    return [np.array(p) for p in res]


KINDS = ['electrostatic_potential', 'electrostatic_field', 'magnetostatic_potential', 'magnetostatic_field']


def evaluate(field, pts):
    """All potentials and fields at the points: an array (len(pts), 8)."""
    return np.array([np.concatenate([np.atleast_1d(getattr(field, k + '_at_point')(np.array(p))) for k in KINDS]) for p in pts])


COLS = [slice(0, 1), slice(1, 4), slice(4, 5), slice(5, 8)]


def differ(a, b, rtol, scale=0.):
    """The largest deviation, per quantity, relative to the largest value of that quantity; None if within tolerance."""
    for k, c in zip(KINDS, COLS):
        s = max(np.abs(a[:, c]).max(), np.abs(b[:, c]).max(), scale)
        d = np.abs(a[:, c] - b[:, c]).max()
        if not d <= rtol * s + 1e-13:
            i = int(np.abs(a[:, c] - b[:, c]).max(axis=1).argmax())
            return f'{k} at point {i}: {a[i, c].tolist()} instead of {b[i, c].tolist()}'
    return None
