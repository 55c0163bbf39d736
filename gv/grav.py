"""Shared pieces of the checks of the gravity computation."""

import numpy as np

from gv import gen, refmodel

K = 10.0  # tolerance: multiple of the forward error bound of refmodel (observed: < 0.8)
EPS = refmodel.EPS
MGAL = 1e5
EOTVOS = 1e9


def warm():
    """import the code under test, compile its kernels before forking"""
    from loguru import logger

    logger.remove()
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    for grad in (False, True):
        s = Station(np.array([2.0, 3.0, 4.0]))
        s.compute_gravity(Polyhedron(gen.CUBE.copy()), 1.0, 1.0, gradient=grad)


def polyhedron(P):
    from geec.polyhedron import Polyhedron

    return Polyhedron(P)


def station(s):
    from geec.station import Station

    return Station(s)


def evaluate(p, s, rho, gc, gradient=False, api="station"):
    """(G, T) of body p at s, through one of the two public entry points"""
    if api == "station":
        st = station(s)
        st.compute_gravity(p, rho, gc, gradient=gradient)
        return st.G, st.T
    G, T = p.get_gravity(s, rho, gc, gradient)
    return G, T


def vec(G):
    return np.asarray(G, dtype=np.longdouble).reshape(3)


def mat(T):
    return np.asarray(T, dtype=np.longdouble).reshape(3, 3)


def off_surface(b, S):
    """stations farther from the surface than the coordinates can resolve"""
    S = np.atleast_2d(S)
    m = np.maximum(b.maxabs, np.abs(S).max(-1))
    lim = 200 * EPS * np.maximum(m, float(b.kappa.max()) * b.size)
    return b.surface_distance(S) > lim, b.edge_distance(S) > lim


def dist_class(d, size):
    """coarse class of a distance relative to the size of the body"""
    if d == 0:
        return "0"
    return int(np.clip(np.floor(np.log10(abs(float(d)) / size)), -16, 6))
