"""Runs of the command line: scenes, invocation, expected results."""

import csv
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from gv import cfg, core, gen, geo, geod, grav, refmodel

LD = np.longdouble
EARTH = ("wgs84", "grs80", "airy", "bessel", "clarke1866", "international1924", "krassovsky1940", "everest1830", "wgs72", "australian")


class Work:
    """scratch directory with its own home and working directory"""

    def __init__(self, prefix):
        self.nfile = 0
        self.dir = tempfile.mkdtemp(prefix=prefix, dir=os.environ["GV_SCRATCH"])
        self.cwd = os.path.join(self.dir, "cwd")
        self.log = os.path.join(self.dir, "log")
        os.makedirs(self.cwd)
        os.makedirs(self.log)
        self.user = cfg.home(os.path.join(self.dir, "home"))
        os.chdir(self.cwd)

    def close(self):
        os.chdir(os.environ["GV_SCRATCH"])
        shutil.rmtree(self.dir, ignore_errors=True)

    def tree(self):
        """all files below the scratch directory, with their content"""
        out = {}
        for d, _, fs in os.walk(self.dir):
            if d.startswith(self.log):
                continue
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.dir)] = fh.read()
        return out


def prepare():
    """once per check, before forking"""
    geo.warm()
    grav.warm()


def invoke(args, work):
    """the command in this process: (exit code, exception, output)"""
    import geec.api
    from click.testing import CliRunner
    from loguru import logger
    from pathlib import Path
    from typer.main import get_command

    import geec.cli

    geec.api.setup_logdir = lambda: Path(work.log)
    try:
        r = CliRunner().invoke(get_command(geec.cli.app), args)
    finally:
        logger.remove()
    return r.exit_code, r.exception, r.output


def spawn(args, work, env=None, code=None):
    """the command in a new process (python -m geec)"""
    e = dict(os.environ, PYTHONPATH=core.REPO, **(env or {}))
    cmd = [sys.executable, "-m", "geec", *args] if code is None else [sys.executable, "-c", code, *args]
    r = subprocess.run(cmd, cwd=work.cwd, env=e, capture_output=True, text=True, timeout=200)
    return r.returncode, r.stderr[-2000:], r.stdout


# --- scenes ---------------------------------------------------------------------------------
def round_list(X, digits):
    X = np.asarray(X, dtype=float)
    return (np.round(X, digits) if digits is not None else X).tolist()


class Scene:
    """a configuration for masses and observers that are near each other"""

    at_corner = False

    def __init__(self, rng, work, cart=None, geoids=True, nmass=None, nobs=None, shape=None):
        self.shape = shape
        self.faint = bool(rng.random() < 0.1)
        self.corners = []
        self.rng, self.work = rng, work
        self.cart = bool(rng.random() < 0.35) if cart is None else cart
        lon, lat = geo.some_lonlat(rng, 1, wide=False)
        self.lon0 = float(np.round(lon[0], 3))
        self.lat0 = float(np.round(np.clip(lat[0], -88, 88), 3))
        self.size = 10 ** rng.uniform(2, 4.5) if not self.cart else 10 ** rng.uniform(-1, 4)
        self.geoids = geoids
        # masses spread over the whole Earth (or far away)
        self.spread = bool(rng.random() < 0.15)
        self.distant = 0
        self.config = {"masses": [self.mass() for _ in range(nmass or int(rng.choice([1, 1, 2, 3, 4])))], "observers": self.observers(nobs)}

    def put(self, where, X):
        """list or file"""
        rng = self.rng
        if rng.random() < 0.6:
            where["points"], where["file_path"] = X, None
            if rng.random() < 0.3:
                where["file_path"] = "not-there.csv"
        else:
            self.work.nfile += 1
            name = f"p{self.work.nfile}.csv"
            with open(os.path.join(self.work.cwd, name), "w") as f:
                for x in X:
                    f.write(",".join(repr(v) for v in x) + "\n")
            where["points"] = [None, []][int(rng.integers(2))]
            where["file_path"] = name if rng.random() < 0.5 else os.path.join(self.work.cwd, name)

    def crs(self):
        rng = self.rng
        c = dict.fromkeys(cfg.CRS_KEYS)
        if self.cart:
            c["ref"] = "cart"
            if rng.random() < 0.3:
                c["name"] = "airy"
            return c, "cart"
        kind = str(rng.choice(["ellps", "enu", "ecef"], p=[0.5, 0.3, 0.2]))
        c["ref"] = None if kind == "ellps" and rng.random() < 0.3 else kind
        if kind in ("ellps", "enu"):
            r = rng.random()
            if r < 0.5:
                c["name"] = str(rng.choice(EARTH))
            elif r < 0.65:
                c["semimajor_axis"], c["semiminor_axis"] = 6378000.0 + float(rng.integers(500)), 6356500.0 + float(rng.integers(500))
        if kind == "enu":
            c["longitude_origin"] = round(self.lon0 + float(rng.normal()) * 0.02, 4)
            c["latitude_origin"] = round(self.lat0 + float(rng.normal()) * 0.02, 4)
            c["altitude_origin"] = [0.0, 100, 250.5][int(rng.integers(3))]
        if self.geoids and kind == "ellps":
            c["vdatum"] = [None, "ellps", "egm84", "egm96", "egm2008"][int(rng.integers(5))]
        return c, kind

    def local(self, X, c, kind, height=True):
        """local metres (east, north, up around lon0, lat0) in the coordinates of c"""
        X = np.asarray(X, dtype=float)
        if kind == "cart":
            return X
        m = 111000.0
        if kind == "ellps":
            k = float(self.rng.choice([0, 0, 0, 360, -360, 720])) if height else 0.0
            lon = self.lon0 + X[:, 0] / (m * np.cos(np.radians(self.lat0)))
            return np.c_[lon + k, self.lat0 + X[:, 1] / m, X[:, 2]]
        if kind == "enu":
            return X
        return geod.enu_to_ecef(X, self.lon0, self.lat0, 0.0, *geod.WGS84).astype(float)

    def mass(self):
        home = self.lon0, self.lat0
        if self.spread and self.rng.random() < 0.6:
            self.distant += 1
            lon, lat = geo.some_lonlat(self.rng, 1, wide=False)
            self.lon0, self.lat0 = float(np.round(lon[0], 3)), float(np.round(np.clip(lat[0], -88, 88), 3))
            m = self._mass(far=True)
            self.lon0, self.lat0 = home
            return m
        return self._mass()

    def _mass(self, far=False):
        rng = self.rng
        c, kind = self.crs()
        P = gen.shape(rng, self.shape or str(rng.choice(["box", "tetra", "cloud", "cube", "prism", "rotbox", "dem"]))) * self.size + rng.normal(size=3) * self.size * [2, 2, 0.3]
        if kind == "cart":
            if far:
                v = rng.normal(size=3)
                P = P + v / np.linalg.norm(v) * self.size * 10 ** rng.uniform(1, 3.5)
            P = np.round(P, 4)
            self.corners += [P[0], (P[0] + P[1]) / 2]
        X = self.local(P, c, kind)
        dig = {"ellps": 8, "enu": 3, "ecef": 4, "cart": 4}[kind] if rng.random() < 0.7 else None
        m = {}
        self.put(m, round_list(X, dig))
        m["density"] = [1000.0, 2670.0, 917, -300.5, float(np.round(rng.uniform(500, 4000), 2)), 0.0][int(rng.integers(6))]
        if self.faint:
            m["density"] = float(np.round(10 ** rng.uniform(-9, -4), 12))
        m["gravity_constant"] = [6.67408e-11, 6.6743e-11, 6.674e-11, 1.0][int(rng.choice(4, p=[0.5, 0.3, 0.15, 0.05]))]
        m["crs"] = c
        return m

    def observers(self, nobs):
        rng = self.rng
        c, kind = self.crs()
        c.pop("vdatum")
        o = {"points": [], "file_path": None}
        n = nobs or int(rng.choice([1, 2, 3, 5, 8, 13]))
        P = rng.normal(size=(n, 3)) * self.size * 2 + [0, 0, self.size]
        if rng.random() < 0.2:
            P[-1] = P[0]
        if self.corners and kind == "cart" and rng.random() < 0.2:
            # at a corner of a body, or between two of them
            P[int(rng.integers(n))] = self.corners[int(rng.integers(len(self.corners)))]
            self.at_corner = True
        grid = [[0.0, 1.0, 1.5]] * 3
        if kind != "ecef" and rng.random() < 0.3 and n < 1000:
            # a grid in the observers' own coordinates
            lo = self.local(P.min(axis=0)[None], c, kind, False)[0]
            hi = self.local(P.max(axis=0)[None], c, kind, False)[0]
            grid = []
            for a, b in zip(lo, hi):
                k = int(rng.integers(1, 4))
                d = float(b - a) if b > a + 1e-9 else 1.0
                grid.append([float(a), float(a + d * (k - 0.5) / k), d / k])
        else:
            X = self.local(P, c, kind, False)
            if rng.random() < 0.15 and kind == "cart":
                X = np.round(X).astype(int)
                o["points"] = X.tolist()
            else:
                self.put(o, round_list(X, 9 if rng.random() < 0.5 else None))
        o["grid"] = dict(zip(cfg.GRID_KEYS, grid))
        o["crs"] = c
        return o

    def write(self, name="config.yaml"):
        p = os.path.join(self.work.cwd, name)
        cfg.dump(p, self.config)
        return p


def mass_in_space(X, c):
    """place in space of the points of a mass, in extended precision"""
    kind, ax, origin, vd = c
    X = np.asarray(X, dtype=float)
    if kind in ("cart", "ecef"):
        return X.astype(LD)
    if kind == "enu":
        return geod.enu_to_ecef(X, *origin, *ax)
    lon = np.array([x if abs(x) <= 180 else float(np.remainder(x + 180, 360) - 180) for x in X[:, 0]])
    N = np.array([geod.height(vd, a, b, geo.data_dir()) for a, b in zip(lon, X[:, 1])])
    return geod.geodetic_to_ecef(X[:, 0], X[:, 1], X[:, 2].astype(LD) + N, *ax)


def observers_in_space(X, c):
    kind, ax, origin, _ = c
    if kind in ("cart", "ecef"):
        return np.asarray(X, dtype=LD)
    if kind == "enu":
        return geod.enu_to_ecef(X, *origin, *ax)
    return geod.geodetic_to_ecef(X[:, 0], X[:, 1], X[:, 2], *ax)


NAMES = ["Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"]
UNITS = ["(mGal)"] * 3 + ["(E)"] * 6
COORDS = {True: (["x_mes", "y_mes", "z_mes"], ["(m)"] * 3), False: (["lon_mes", "lat_mes", "alt_mes"], ["(degree_east)", "(degree_north)", "(m)"])}


def read_result(path):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1], np.array([[float(x or "nan") for x in r] for r in rows[2:]]).reshape(len(rows) - 2, -1)


def check_result(mon, path, layers, cwd, gradient, w):
    """the file against the reference; returns True if all is right"""
    masses = cfg.masses(layers, cwd)
    X, c = cfg.observers(layers, cwd)
    try:
        names, units, D = read_result(path)
    except Exception as exc:
        mon.violate(f"result file is not a table: {exc!r}", **w)
        return False
    cn, cu = COORDS[c[0] == "cart"]
    if names != cn + NAMES or units != cu + UNITS:
        mon.violate("names or units of the columns are wrong", names=names, units=units, **w)
        return False
    if D.shape != (len(X), 12):
        mon.violate(f"{len(D)} rows for {len(X)} observers", **w)
        return False
    S = observers_in_space(X, c)
    mon.event("row compared", len(D))
    if c[0] == "cart":
        gridded = not (cfg.get(layers, ("observers", "points")) or cfg.get(layers, ("observers", "file_path")))
        if not (np.abs(D[:, :3] - X) <= gridded * 16 * np.finfo(float).eps * np.abs(X).max(axis=0)).all():
            mon.violate("coordinates of Cartesian observers differ from those given", rows=D[:, :3], given=X, **w)
            return False
    else:
        P = geod.geodetic_to_ecef(D[:, 0], D[:, 1], D[:, 2], *geod.WGS84)
        d = np.sqrt(((P - S) ** 2).sum(-1)).astype(float)
        if not (d <= 1e-6).all() or not (np.abs(D[:, 1]) <= 90).all():
            k = int(np.argmax(d))
            mon.violate(f"row {k}: WGS84 coordinates are {d[k]:.3g} m from the observer", rows=D[:, :3], given=X, **w)
            return False
    # total field
    s = S.astype(float)
    G, T = np.zeros((len(X), 3), LD), np.zeros((len(X), 3, 3), LD)
    tG, tT = np.zeros(len(X)), np.zeros(len(X))
    ok = np.ones(len(X), bool)
    for Y, mc, rho, gc in masses:
        Q = mass_in_space(Y, mc)
        b = refmodel.Body(Q.astype(float))
        f = refmodel.field(b, s)
        u = rho * gc
        G += LD(u) * grav.MGAL * f.g
        T += LD(u) * grav.EOTVOS * f.T
        m = max(b.maxabs, float(np.abs(s).max()))
        slip = 40 * grav.EPS * m * len(b.tri) * float(min(b.kappa.max(), 1e3))
        d = np.maximum(b.surface_distance(s), 1e-30 * b.size)
        tG += abs(u) * grav.MGAL * (grav.K * f.gb + slip * (1 + np.log1p(b.size / d)))
        tT += abs(u) * grav.EOTVOS * (grav.K * f.Tb + slip * 100 / d)
        ok &= grav.off_surface(b, s)[0] & (d > 1e-4 * b.size)
    eg = np.abs(D[:, 3:6] - G).max(axis=1).astype(float)
    if not (eg <= tG).all():
        k = int(np.argmax(eg / np.maximum(tG, 1e-300)))
        mon.violate(f"row {k}: gravity is off by {eg[k]:.3g} mGal (> {tG[k]:.3g})", row=D[k], expected=G[k], **w)
        return False
    mon.event("gravity compared", len(D))
    t6 = np.stack([T[:, i, j] for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))], -1)
    if not gradient:
        mon.event("tensor zero", len(D))
        if np.any(D[:, 6:] != 0):
            mon.violate("tensor is not zero although the gradient was not asked for", row=D[0], **w)
            return False
        return True
    et = np.abs(D[:, 6:] - t6).max(axis=1).astype(float)
    bad = ok & ~(et <= tT)
    mon.event("tensor compared", int(ok.sum()))
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        mon.violate(f"row {k}: gradient is off by {et[k]:.3g} E (> {tT[k]:.3g})", row=D[k], expected=t6[k], **w)
        return False
    return True
