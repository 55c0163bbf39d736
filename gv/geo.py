"""Shared pieces of the checks of coordinates, configuration and runs."""

import os

import numpy as np

from gv import geod

SCRATCH = os.environ.get("GV_SCRATCH", "/tmp")


def warm():
    from loguru import logger

    logger.remove()
    geod.install(SCRATCH)
    import geec.cli  # noqa: F401
    import geec.config
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer  # noqa: F401
    import pymap3d as pm

    for k, v in pm.Ellipsoid.models.items():
        ELL[k] = (float(v["a"]), float(v["b"]))


ELL = {}


def data_dir():
    from gv import core

    return os.path.join(core.REPO, "geec", "data", "geoids")


def make_ellps(name=None, a=None, b=None):
    import geec.crs as c

    return c.Ellipsoid(name=name, semimajor_axis=a, semiminor_axis=b)


def make_crs(kind, ell=None, origin=None, vdatum="ellps"):
    """a fresh CRS object; ell: name or (a, b) or None (default)"""
    import geec.crs as c

    vd = next(v for v in c.VDatumEnum if v.value == vdatum)
    if kind == "cart":
        return c.CRS(name=c.CRSEnum.CART)
    if kind == "ecef" and not ell:
        return c.CRS(name=c.CRSEnum.ECEF)
    e = make_ellps(name=ell) if isinstance(ell, str) else make_ellps(a=ell[0], b=ell[1]) if ell else make_ellps()
    if kind == "ecef":
        # an ellipsoid recorded with Earth-centred data plays no role
        return c.CRS(name=c.CRSEnum.ECEF, ellps=e)
    if kind == "ellps":
        return c.CRS(name=c.CRSEnum.ELLPS, ellps=e, vdatum=vd)
    o = c.ENU(ellps=e, longitude_origin=origin[0], latitude_origin=origin[1], altitude_origin=origin[2])
    return c.CRS(name=c.CRSEnum.ENU, ellps=e, enu=o, vdatum=vd)


def axes(ell):
    return geod.WGS84 if not ell else ELL[ell] if isinstance(ell, str) else ell


def name_of(crs):
    return str(getattr(crs.name, "value", crs.name)).lower()


def some_ellipsoid(rng):
    r = rng.random()
    if r < 0.2:
        return None
    if r < 0.8:
        return str(rng.choice(sorted(ELL)))
    a = float(rng.choice([6378137.0, 6.4e6, 1.0e6, 7.1492e7])) * rng.uniform(0.99, 1.01)
    return (a, a * rng.uniform(0.93, 1.0) if rng.random() < 0.8 else a)


def some_lonlat(rng, n, wide=True):
    lon = rng.uniform(-180, 180, n)
    lat = np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    for i in range(n):
        r = rng.random()
        if r < 0.15:
            lon[i] = rng.choice([0, 180, -180, 90, -90, 45, 179.9999999, -179.9999999, 360 if wide else 120, 270 if wide else 30])
        elif r < 0.3 and wide:
            lon[i] += 360 * rng.choice([-2, -1, 1, 2])
        r = rng.random()
        if r < 0.15:
            lat[i] = rng.choice([0, 90, -90, 45, -45, 89.9999999, -89.9999999, 1e-9])
    return lon, lat


def some_heights(rng, n):
    how = int(rng.integers(5))
    if how == 0:
        return rng.uniform(-500, 9000, n)
    if how == 1:
        return np.zeros(n)
    if how == 2:
        return rng.uniform(-5e4, 4e5, n)
    if how == 3:
        return rng.uniform(-2e5, 3.6e7, n)
    return np.round(rng.uniform(-11000, 9000, n))


def some_origin(rng):
    lon, lat = some_lonlat(rng, 1)
    return float(lon[0]), float(lat[0]), float(some_heights(rng, 1)[0])


def some_points(rng, kind, n, ell=None):
    """coordinates of n points for a system of the given kind"""
    if kind == "ellps":
        lon, lat = some_lonlat(rng, n)
        a, b = axes(ell)
        h = some_heights(rng, n)
        h = np.maximum(h, -0.05 * b)
        return np.c_[lon, lat, h]
    if kind == "enu":
        return rng.normal(size=(n, 3)) * 10 ** rng.uniform(0, 6) * (1, 1, 0.3)
    if kind == "ecef":
        u = rng.normal(size=(n, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        if rng.random() < 0.3:
            u[int(rng.integers(n))] = np.eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
        return u * 6.371e6 * 10 ** (rng.uniform(-0.5, 0.8, size=(n, 1)) * (rng.random() < 0.4)) + rng.normal(size=(n, 3)) * 1000
    return rng.normal(size=(n, 3)) * 10 ** rng.uniform(-2, 6)
