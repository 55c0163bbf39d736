"""C09 heights get the named geoid once; longitudes wrap to -180..180"""

import numpy as np

from gv import geo, geod

LEVEL = "exploration"
RULE = (
    "wrap: longitudes from all of -1e6..1e6, odd multiples of 180 and their neighbouring floating-point numbers, in all coordinate systems. height: "
    "datasets (plain, of a mass, of observers) in all systems, with the vertical datums ellps, egm84, egm96, egm2008 set directly or "
    "through a configuration, converted once or up to 4 times, mixed with wrapping; each height is compared with height + geoid height of the named model at "
    "that point (one scalar lookup per point in the grid file of that model). history: several datasets with different datums interleaved. "
    "Distinct and non-trivial by (system, datum, wrapper, sequence of operations, number of points)."
)
ASSUMPTIONS = [
    "pygeodesy's scalar interpolation of a geoid grid is right",
    "the egm96 and egm2008 grids, absent from the checkout, are replaced by synthetic ones with distinct heights",
]
REQUIRED = ["longitude compared", "height compared", "egm84", "egm96", "egm2008", "ellps", "repeated", "other system untouched", "real egm84 grid", "already in range", "sharing a crs"]


def setup(tier):
    geo.warm()


def plan(tier):
    if tier == "quick":
        return [("wrap", 20000, 100), ("height", 15000, 50), ("history", 6000, 50)]
    return [("wrap", 100000, 200), ("height", 60000, 100), ("history", 30000, 50)]


def longitudes(rng, n):
    x = rng.uniform(-180, 180, n)
    for i in range(n):
        r = rng.random()
        if r < 0.3:
            x[i] = rng.uniform(-1, 1) * 10 ** rng.uniform(0, 6)
        elif r < 0.6:
            x[i] = 180.0 * rng.integers(-7, 8)
            if rng.random() < 0.5:
                x[i] = np.nextafter(x[i], rng.choice([-np.inf, np.inf]))
        elif r < 0.7:
            x[i] = float(rng.integers(-1000, 1001))
        elif r < 0.75:
            x[i] = rng.choice([180.0, -180.0, 360.0, 0.0, -0.0, 540.0, -540.0, 359.999999999])
    return x


def wrapped(mon, before, after, **w):
    """one column of longitudes before and after wrapping"""
    for x, y in zip(before, after):
        mon.event("longitude compared")
        k = (x - y) / 360
        if abs(x) <= 180:
            mon.event("already in range")
            if y != x:
                mon.violate(f"longitude {x!r} is in range and became {y!r}", **w)
                return False
        elif not (-180 <= y <= 180) or abs(k - round(k)) > 1e-12 * max(1, abs(x)):
            mon.violate(f"longitude {x!r} became {y!r}", **w)
            return False
    return True


def build(rng, kind, X, vdatum, wrap, ell, given=None):
    import geec.dataset
    import geec.mass
    import geec.observer

    if given is None:
        crs = geo.make_crs(kind, ell, (12.0, 45.0, 100.0) if kind == "enu" else None, vdatum)
        given = crs, np.array(X, dtype=float, order=str(rng.choice(["C", "F"])))
    ds = geec.dataset.Dataset(coords=given[1], crs=given[0])
    if wrap == "mass":
        o = geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds)
        return o, given
    if wrap == "observer":
        o = geec.observer.Observer(dataset=ds)
        return o, given
    return ds, given


def data(rng, kind):
    n = int(rng.integers(1, 7)) if rng.random() < 0.99 else int(rng.integers(100, 600)) if rng.random() < 0.9 else int(rng.integers(1100, 5000))
    X = geo.some_points(rng, kind, n)
    if kind == "ellps":
        X[:, 0] = longitudes(rng, n)
    elif rng.random() < 0.5:
        # numbers that look like longitudes, latitudes and heights
        X = np.c_[longitudes(rng, n), rng.uniform(-90, 90, n), rng.uniform(-100, 5000, n)]
    return X


class State:
    """expected coordinates of one dataset"""

    def __init__(self, rng, mon, like=None):
        self.wrap = str(rng.choice(["plain", "mass", "observer"]))
        self.log = []
        if like is not None:  # made from the same objects as another, not converted yet
            mon.event("sharing a crs")
            self.kind, self.vdatum, self.ell, self.pending = like.kind, like.vdatum, like.ell, like.vdatum
            same = rng.random() < 0.4
            self.X = like.X0.copy() if same else data(rng, self.kind)
            self.X0 = self.X.copy()
            given = like.given[0], like.given[1] if same else self.X.copy()
            self.obj, self.given = build(rng, self.kind, self.X, self.vdatum, self.wrap, self.ell, given)
            return
        self.kind = str(rng.choice(["ellps", "enu", "ecef", "cart"], p=[0.7, 0.1, 0.1, 0.1]))
        self.vdatum = str(rng.choice(["ellps", "egm84", "egm96", "egm2008"])) if self.kind in ("ellps", "enu") else "ellps"
        self.ell = geo.some_ellipsoid(rng)
        self.X = data(rng, self.kind)
        self.X0 = self.X.copy()
        self.obj, self.given = build(rng, self.kind, self.X, self.vdatum, self.wrap, self.ell)
        self.pending = self.vdatum

    @property
    def ds(self):
        return self.obj if self.wrap == "plain" else self.obj.dataset

    def describe(self):
        return dict(system=self.kind, vdatum=self.vdatum, wrapper=self.wrap, coords=self.X0[:50], operations=self.log, ellipsoid=self.ell)

    def can(self, op):
        return op != "to_ellipsoid_height" or self.kind != "ellps" or np.abs(self.X[:, 0]).max() <= 180

    def expect(self, op, mon):
        """update the expectation (place of the point before the operation)"""
        self.log.append(op)
        if self.kind != "ellps":
            mon.event("other system untouched")
            return
        if op == "to_ellipsoid_height":
            mon.event(self.pending)
            if self.pending == "egm84":
                mon.event("real egm84 grid")
            if self.log.count(op) > 1:
                mon.event("repeated")
            N = [geod.height(self.pending, x[0], x[1], geo.data_dir()) for x in self.X]
            self.X[:, 2] += N
            self.pending = "ellps"

    def compare(self, op, mon):
        Y = np.array(self.ds.coords, dtype=float)
        w = dict(now=Y, **self.describe())
        if Y.shape != self.X.shape:
            mon.violate(f"{op}: number of points changed", **w)
            return False
        if geo.name_of(self.ds.crs) != self.kind:
            mon.violate(f"{op}: coordinate system changed", **w)
            return False
        if self.kind != "ellps":
            if not np.array_equal(Y, self.X):
                mon.violate(f"{op} changed {self.kind} data", **w)
                return False
            return True
        if not np.array_equal(Y[:, 1], self.X[:, 1]):
            mon.violate(f"{op} changed latitudes", **w)
            return False
        if op == "to_lon180":
            if not wrapped(mon, self.X[:, 0], Y[:, 0], **w):
                return False
            self.X[:, 0] = Y[:, 0]
        elif not np.array_equal(Y[:, 0], self.X[:, 0]):
            mon.violate(f"{op} changed longitudes", **w)
            return False
        mon.event("height compared", len(Y))
        if op != "to_ellipsoid_height" and not np.array_equal(Y[:, 2], self.X[:, 2]):
            mon.violate(f"{op} changed heights", **w)
            return False
        d = np.abs(Y[:, 2] - self.X[:, 2])
        if not (d <= 2e-9 + 1e-14 * np.abs(self.X[:, 2])).all():
            mon.violate(f"{op}: height is off by {d.max():.6g} m for vertical datum {self.vdatum}", expected=self.X[:, 2], **w)
            return False
        self.X[:, 2] = Y[:, 2]
        vd = str(getattr(self.ds.crs.vdatum, "value", self.ds.crs.vdatum))
        if vd != self.pending:
            mon.violate(f"{op}: vertical datum recorded is {vd}, heights are relative to {self.pending}", **w)
            return False
        return True


def case(family, i, rng, mon):
    import geec.mass

    if family == "wrap":
        s = State(rng, mon)
        ops = ["to_lon180"] * int(rng.integers(1, 3))
        states = [s]
    elif family == "height":
        s = State(rng, mon)
        ops = ["to_lon180"] + [str(rng.choice(["to_ellipsoid_height", "to_ellipsoid_height", "to_lon180"])) for _ in range(int(rng.integers(1, 5)))]
        states = [s]
    else:
        states = [State(rng, mon) for _ in range(int(rng.integers(2, 5)))]
        if rng.random() < 0.3:
            states.append(State(rng, mon, states[0]))
        ops = [str(rng.choice(["to_ellipsoid_height", "to_lon180"])) for _ in range(int(rng.integers(3, 9)))]
    for op in ops:
        masses = [s for s in states if s.wrap == "mass"]
        if masses and rng.random() < 0.3 and all(s.can(op) for s in masses):
            for s in masses:
                s.expect(op, mon)
            getattr(geec.mass, op)([s.obj for s in masses])
            done = masses
        else:
            s = states[int(rng.integers(len(states)))]
            if not s.can(op):
                op = "to_lon180"
            s.expect(op, mon)
            getattr(s.obj, op)()
            done = [s]
        for s in done:
            if not s.compare(op, mon):
                return
        for s in states:
            if s not in done and not s.compare("operation on another dataset", mon):
                return
    for s in states:
        mon.evaluated(s.kind, s.vdatum, s.wrap, s.log, len(s.X))
    s = states[0]
    mon.sample({"system": s.kind, "vdatum": s.vdatum, "coords": s.X0[:2], "operations": s.log, "end": s.ds.coords[:2]})
