"""Layered configurations: generator and reference semantics."""

import os

import numpy as np
import yaml

from gv import geo

MISSING = object()
MASS_KEYS = ("points", "file_path", "density", "gravity_constant")
CRS_KEYS = ("ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin", "vdatum")
GRID_KEYS = ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep")


class Refused(Exception):
    """the reference says that the configuration has to be refused"""


class Undecided(Exception):
    """nothing is promised about this configuration"""


def home(d):
    """make d the user's home for the code under test"""
    os.makedirs(os.path.join(d, ".config", "geec"), exist_ok=True)
    os.environ["HOME"] = d
    os.environ["XDG_CONFIG_HOME"] = os.path.join(d, ".config")
    return os.path.join(d, ".config", "geec", "config.yaml")


def dump(path, layer):
    with open(path, "w") as f:
        yaml.safe_dump(layer, f, sort_keys=False, default_flow_style=None)


def load(path):
    with open(path) as f:
        return yaml.safe_load(f)


def get(layers, path):
    """value of the first layer that has the path (layers in order of priority)"""
    for layer in layers:
        v = layer
        for k in path:
            try:
                v = v[k]
            except (KeyError, IndexError):
                break
            except TypeError:
                raise Undecided(f"{path}: not a collection")
        else:
            return v
    return MISSING


def count(layers):
    for layer in layers:
        if "masses" in layer:
            if not isinstance(layer["masses"], list):
                raise Undecided("masses")
            return len(layer["masses"])
    raise Undecided("no masses")


def number(v, what):
    if v is MISSING:
        raise Undecided(what)
    if isinstance(v, bool):
        raise Undecided(what)
    if not isinstance(v, (int, float)):
        raise Refused(f"{what}: {v!r} is not a number")
    return float(v)


def crs(layers, base):
    """(kind, (a, b), origin, vdatum) expected"""
    def g(k):
        return get(layers, base + ("crs", k))

    ref = g("ref")
    ref = "ellps" if ref is MISSING or ref is None else ref
    if not isinstance(ref, str) or ref != ref.lower():
        raise Undecided("ref")
    if ref not in ("cart", "ellps", "enu", "ecef"):
        raise Refused(f"ref {ref}")
    if ref in ("cart", "ecef"):
        return ref, None, None, "ellps"
    name = g("name")
    a, b = g("semimajor_axis"), g("semiminor_axis")
    if MISSING in (name, a, b):
        raise Undecided("ellipsoid")
    if name is not None:
        if not isinstance(name, str):
            raise Undecided("name")
        if name not in geo.ELL:
            raise Refused(f"name {name}")
        if a is not None or b is not None:
            raise Undecided("name and axes")
        ax = geo.ELL[name]
    else:
        if (a is None) != (b is None):
            raise Undecided("one axis")
        ax = geo.geod.WGS84 if a is None else (number(a, "axis"), number(b, "axis"))
        if ax[0] < ax[1]:
            raise Undecided("prolate")
    vd = g("vdatum")
    vd = "ellps" if vd is MISSING or vd is None else vd
    if not isinstance(vd, str) or vd != vd.lower() or vd == "egm08":
        raise Undecided("vdatum")
    origin = None
    if ref == "enu":
        origin = tuple(number(g(k), k) for k in CRS_KEYS[4:7])
    if vd not in ("ellps", "egm84", "egm96", "egm2008"):
        raise Refused(f"vdatum {vd}")
    return ref, ax, origin, vd


def points(layers, base, cwd, grid):
    P = get(layers, base + ("points",))
    if P is MISSING:
        raise Undecided("points")
    if P:
        return np.array(P, dtype=float)
    F = get(layers, base + ("file_path",))
    if F is MISSING:
        raise Undecided("file")
    if F:
        F = os.path.join(cwd, F)
        if not os.path.isfile(F):
            raise Refused("missing file")
        return np.array([[float(x) for x in line.split(",")] for line in open(F) if line.strip()])
    if not grid:
        raise Undecided("no points")
    if not get(layers, base + ("grid",)):
        raise Undecided("empty grid")
    ax = []
    for k in GRID_KEYS:
        v = get(layers, base + ("grid", k))
        if v is MISSING or not isinstance(v, list) or len(v) != 3:
            raise Undecided("grid")
        ax.append(axis(*v))
    return np.array([(x, y, z) for x in ax[0] for y in ax[1] for z in ax[2]], dtype=float)


def axis(start, end, step):
    """start + i*step below end; undecided where rounding decides whether the last is in"""
    from fractions import Fraction as F

    q = (F(end) - F(start)) / F(step)
    if q <= 0 or step <= 0:
        raise Undecided("empty axis")
    n = -(-q.numerator // q.denominator)
    if q.denominator != 1 and abs(q - round(q)) < F(1, 10**12) * (1 + q + max(abs(F(start)), abs(F(end))) / F(step)):
        raise Undecided("rounding")
    return [float(F(start) + i * F(step)) for i in range(n)]


def masses(layers, cwd):
    out = []
    for i in range(count(layers)):
        base = ("masses", i)
        X = points(layers, base, cwd, False)
        c = crs(layers, base)
        d = number(get(layers, base + ("density",)), "density")
        g = number(get(layers, base + ("gravity_constant",)), "gravity_constant")
        out.append((X, c, d, g))
    return out


def observers(layers, cwd):
    return points(layers, ("observers",), cwd, True), crs(layers, ("observers",))


# --- generators ---------------------------------------------------------------------------
def full_crs(rng, kind=None, geoids=True, bad=0.0):
    """all keys of a 'crs' section"""
    kind = kind or str(rng.choice(["cart", "ellps", "enu", "ecef"]))
    ell = geo.some_ellipsoid(rng)
    c = dict.fromkeys(CRS_KEYS)
    c["ref"] = kind if kind != "ellps" or rng.random() < 0.6 else None
    if isinstance(ell, str):
        c["name"] = ell
    elif ell:
        c["semimajor_axis"], c["semiminor_axis"] = ell
    elif rng.random() < 0.3:
        c["name"] = "wgs84"
    if kind == "enu" or rng.random() < 0.3:
        o = geo.some_origin(rng)
        if rng.random() < 0.3:
            o = tuple(int(round(x)) for x in o)
        c["longitude_origin"], c["latitude_origin"], c["altitude_origin"] = o
    if geoids:
        c["vdatum"] = [None, "ellps", "egm84", "egm96", "egm2008"][int(rng.integers(5))]
    if rng.random() < bad:
        k = str(rng.choice(["ref", "vdatum", "name", "longitude_origin", "altitude_origin", "semimajor_axis"]))
        c[k] = {
            "ref": ["geo", "llh", "utm", "wgs84", "cartesian", "enuu", "ellp", "ned"],
            "vdatum": ["egm2020", "egm", "navd88", "msl", "egm20088", "geoid", "wgs84", "egm97"],
            "name": ["wgs85", "earth", "wgs", "grs8", "none", "clarke", "sphere", "airyy"],
            "longitude_origin": ["east", None, [1], "12 E"],
            "altitude_origin": ["high", None, [1], "1 km"],
            "semimajor_axis": ["long", [1], "a", "6378 km"],
        }[k][int(rng.integers(4))]
    return c
