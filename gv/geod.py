"""Independent geodesy in extended precision, and geoid fixtures."""

import os

import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
WGS84 = (6378137.0, 6356752.31424518)


def _sincos(deg):
    x = np.asarray(deg, dtype=LD)
    x = x - 360 * np.round(x / 360)
    r = x * PI / 180
    s, c = np.sin(r), np.cos(r)
    # exact at the quadrants
    s = np.where(np.abs(x) == 180, 0, s)
    c = np.where(np.abs(x) == 90, 0, c)
    return s, c


def geodetic_to_ecef(lon, lat, h, a, b):
    a, b = LD(a), LD(b)
    sl, cl = _sincos(lon)
    sp, cp = _sincos(lat)
    h = np.asarray(h, dtype=LD)
    n = a * a / np.sqrt(a * a * cp * cp + b * b * sp * sp)
    return np.stack([(n + h) * cp * cl, (n + h) * cp * sl, (n * (b / a) ** 2 + h) * sp], -1)


def enu_matrix(lon0, lat0):
    """columns: east, north, up in ECEF"""
    sl, cl = _sincos(lon0)
    sp, cp = _sincos(lat0)
    return np.array([[-sl, -sp * cl, cp * cl], [cl, -sp * sl, cp * sl], [LD(0), cp, sp]], dtype=LD)


def enu_to_ecef(E, lon0, lat0, h0, a, b):
    o = geodetic_to_ecef(lon0, lat0, h0, a, b)
    return o + np.asarray(E, dtype=LD) @ enu_matrix(lon0, lat0).T


def place(coords, crs):
    """place in space (ECEF) of coordinates according to the system recorded with them;
    None for plain Cartesian"""
    X = np.asarray(coords, dtype=LD)
    name = str(getattr(crs.name, "value", crs.name)).lower()
    if name == "ecef":
        return X
    if name == "ellps":
        e = crs.ellps
        return geodetic_to_ecef(X[:, 0], X[:, 1], X[:, 2], e.semimajor_axis, e.semiminor_axis)
    if name == "enu":
        o = crs.enu
        e = o.ellps
        return enu_to_ecef(X, o.longitude_origin, o.latitude_origin, o.altitude_origin, e.semimajor_axis, e.semiminor_axis)
    if name == "cart":
        return None
    raise ValueError(name)


# --- geoid grids -------------------------------------------------------------------------
FILES = {"egm84": "egm84-15.pgm", "egm96": "egm96-5.pgm", "egm2008": "egm2008-2_5.pgm"}
_real = None
_dir = None
_resolved = {}


def _write_pgm(path, seed, nlon=72, nlat=37):
    """a smooth synthetic geoid (the large grids are not part of this checkout)"""
    rng = np.random.default_rng(seed)
    lat = np.linspace(90, -90, nlat)[:, None] * np.pi / 180
    lon = np.arange(nlon)[None] * 2 * np.pi / nlon
    H = np.zeros((nlat, nlon))
    for _ in range(8):
        k, m = rng.integers(1, 5), rng.integers(1, 5)
        H += rng.normal() * 15 * np.cos(lat) ** 2 * np.cos(k * lon + rng.uniform(0, 6)) * np.cos(m * lat + rng.uniform(0, 6))
    H += rng.uniform(-30, 30)
    v = np.round((np.clip(H, -105, 80) + 108) / 0.003).astype(">u2")
    # other processes of this check may be reading it
    part = f"{path}.{os.getpid()}"
    with open(part, "wb") as f:
        f.write(b"P5\n# Geoid file in PGM format for the GeographicLib::Geoid class\n# Description synthetic\n# DateTime 2009-08-29 18:45:03\n# MaxBilinearError 1\n# RMSBilinearError 1\n# MaxCubicError 1\n# RMSCubicError 1\n# Offset -108\n# Scale 0.003\n# Origin 90N 0E\n# AREA_OR_POINT Point\n# Vertical_Datum WGS84\n")
        f.write(f"{nlon} {nlat}\n65535\n".encode())
        f.write(v.tobytes())
    os.replace(part, path)


def install(scratch):
    """serve synthetic grids for those missing in the checkout (before importing geec.crs)"""
    global _real, _dir
    import pygeodesy

    if _real is not None:
        return
    _real = pygeodesy.GeoidKarney
    _dir = os.path.join(scratch, "geoids")
    os.makedirs(_dir, exist_ok=True)
    for k, f in enumerate(FILES.values()):
        _write_pgm(os.path.join(_dir, f), 1000 + k)

    def resolve(path):
        p = os.path.realpath(str(path))
        if not os.path.exists(p):
            q = os.path.join(_dir, os.path.basename(p))
            if os.path.exists(q):
                p = q
        _resolved[os.path.basename(p)] = p
        return p

    class GeoidKarney(_real):
        def __init__(self, path, *a, **k):
            super().__init__(resolve(path), *a, **k)

    GeoidKarney.__name__ = "GeoidKarney"
    pygeodesy.GeoidKarney = GeoidKarney
    for name in ("geoids",):
        m = getattr(pygeodesy, name, None)
        if m is not None and hasattr(m, "GeoidKarney"):
            m.GeoidKarney = GeoidKarney


_grids = {}


def height(model, lon, lat, data_dir):
    """geoid height of the named model (grid found in data_dir, or the synthetic one)"""
    if model == "ellps":
        return 0.0
    if model not in _grids:
        p = os.path.join(str(data_dir), FILES[model])
        if not os.path.exists(p):
            p = os.path.join(_dir, FILES[model])
        _grids[model] = _real(p)
    return float(_grids[model].height(lat, lon))
