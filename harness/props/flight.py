"""Fields to fly through, shared by the checks of the tracer."""
import numpy as np
from props import scenes

EV = 0.5 * 9.1093837139e-31 / 1.602176634e-19      # (m/s)^2 to eV


def speed(eV):
    return np.sqrt(eV / EV)


def energies(pos):
    return EV * (pos[:, 3:] ** 2).sum(axis=1)


def coarse(G, E, S, sym, kind='voltage', ring=(3., 5.)):
    """A field of few elements: rings (radial) or plates (3D) near the origin."""
    if sym == 'radial':
        if kind == 'current':
            g = G.Surface.rectangle_xz(ring[0], ring[1], -1., 1.)
        else:
            g = G.Path.line([ring[0], 0., -1.], [ring[1], 0., 1.])
        g.name = 'a'
        m = g.mesh(mesh_size=1.)
        e = E.Excitation(m, E.Symmetry.RADIAL)
    else:
        g = G.Surface.rectangle_xz(-1., 1., -1., 1.).move(dy=ring[0])
        g.name = 'a'
        m = g.mesh(mesh_size=1.)
        e = E.Excitation(m, E.Symmetry.THREE_D)
    {'voltage': e.add_voltage, 'current': e.add_current, 'potential': e.add_magnetostatic_potential}[kind](a=7.5)
    return S.solve_direct(e)
