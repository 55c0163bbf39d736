"""C08 coordinate conversions never move a point"""

import numpy as np

from gv import geo, geod

LEVEL = "exploration"
RULE = (
    "A history holds 1-3 datasets (plain, of a mass, of observers), in geographic coordinates on every known or a user-defined ellipsoid, local ENU "
    "coordinates at any origin, ECEF, or Cartesian, some made from the same crs object or array, and applies 1-8 conversions (to_ecef, to_wgs84, to_enu at a random origin, to_lon180, repeated or "
    "not) to one or (through the functions on lists of masses) several of them. After every step all datasets are located in space by an independent "
    "extended-precision geodesy from the coordinates and the system recorded with them, and compared with their place at the start. "
    "Distinct and non-trivial by (system at start, ellipsoid, sequence of conversions), with at least one conversion that changes coordinates."
)
ASSUMPTIONS = ["pymap3d's table of ellipsoid axes is right", "vertical datum is the ellipsoid (geoids: C09)", "heights above -5 % of the ellipsoid's axis"]
REQUIRED = ["place compared", "to_ecef", "to_wgs84", "to_enu", "repeated conversion", "cartesian untouched", "other dataset compared", "sharing a crs", "many points"]

OPS = ("to_ecef", "to_wgs84", "to_enu", "to_lon180")


def setup(tier):
    geo.warm()


def plan(tier):
    if tier == "quick":
        return [("pairs", 1500, 50), ("history", 20000, 100), ("exotic", 3000, 100)]
    return [("pairs", 6000, 50), ("history", 80000, 100), ("exotic", 20000, 100)]


class Held:
    """one dataset and what is known about it"""

    def __init__(self, rng, kind, ell, origin, X, wrap, crs=None, array=None):
        import geec.dataset
        import geec.mass
        import geec.observer

        self.kind, self.ell, self.origin = kind, ell, origin
        self.X0 = X.copy()
        self.given = crs or geo.make_crs(kind, ell, origin), X.copy() if array is None else array
        if kind == "ellps":
            self.space = geod.geodetic_to_ecef(X[:, 0], X[:, 1], X[:, 2], *geo.axes(ell))
        elif kind == "enu":
            self.space = geod.enu_to_ecef(X, *origin, *geo.axes(ell))
        else:
            self.space = X.astype(np.longdouble)
        ds = geec.dataset.Dataset(coords=self.given[1], crs=self.given[0])
        self.wrap = wrap
        if wrap == "mass":
            self.obj = geec.mass.Mass(density=1000.0, gravity_constant=6.67e-11, dataset=ds)
        elif wrap == "observer":
            self.obj = geec.observer.Observer(dataset=ds)
        else:
            self.obj = ds
        self.log = []

    @property
    def ds(self):
        return self.obj if self.wrap == "plain" else self.obj.dataset

    def describe(self):
        return dict(start=self.kind, ellipsoid=self.ell, origin=self.origin, coords=self.X0[:50], wrapper=self.wrap, conversions=self.log)


def check(mon, h, who):
    ds = h.ds
    X = np.asarray(ds.coords)
    w = h.describe()
    if X.shape != h.X0.shape:
        mon.violate(f"number of points changed ({who})", now=X, **w)
        return False
    if h.kind == "cart":
        mon.event("cartesian untouched")
        if geo.name_of(ds.crs) != "cart" or not np.array_equal(X, h.X0):
            mon.violate("Cartesian data changed", now=X, **w)
            return False
        return True
    try:
        P = geod.place(X, ds.crs)
    except Exception as exc:
        mon.violate(f"system recorded with the data does not describe the coordinates: {exc!r}", now=X, crs=repr(ds.crs), **w)
        return False
    if P is None:
        mon.violate("data are recorded as Cartesian after a conversion", now=X, **w)
        return False
    d = np.sqrt(((P - h.space) ** 2).sum(-1)).astype(float)
    r = np.sqrt((h.space**2).sum(-1)).astype(float)
    far = max([0.0] + [abs(c[3]) for c in h.log if len(c) > 3]) + (abs(h.origin[2]) if h.origin else 0)
    tol = 1e-7 + 4e-15 * (r + far + 7e6) * (2 + len(h.log))
    mon.event("place compared", len(d))
    if len(d) >= 100:
        mon.event("many points")
    if not (d <= tol).all():
        k = int(np.argmax(d / tol))
        mon.violate(f"point {k} moved by {d[k]:.3g} m (> {tol[k]:.1g}, {who})", now=X, crs=repr(ds.crs), **w)
        return False
    return True


def expect_tag(mon, h, op, arg, before):
    """the system the data are in after a conversion"""
    n = geo.name_of(h.ds.crs)
    c = h.ds.crs
    bad = None
    if h.kind == "cart":
        return
    if op == "to_ecef" and n != "ecef":
        bad = "not ECEF"
    elif op == "to_wgs84":
        if n != "ellps" or (c.ellps.semimajor_axis, c.ellps.semiminor_axis) != geod.WGS84:
            bad = "not WGS84"
    elif op == "to_enu":
        if n != "enu":
            bad = "not ENU"
        elif before != "enu" and (c.enu.longitude_origin, c.enu.latitude_origin, c.enu.altitude_origin) != tuple(arg):
            bad = "not the ENU origin asked for"
    elif op == "to_lon180" and n != before:
        bad = "another system"
    if bad:
        mon.violate(f"after {op} the data are {bad}", crs=repr(c), **h.describe())


def new(rng, kind=None, ell="?", wrap=None):
    kind = kind or str(rng.choice(["ellps", "enu", "ecef", "cart"], p=[0.4, 0.3, 0.2, 0.1]))
    ell = geo.some_ellipsoid(rng) if ell == "?" else ell
    origin = geo.some_origin(rng) if kind == "enu" else None
    n = int(rng.integers(1, 7)) if rng.random() < 0.99 else int(rng.integers(100, 3000))
    X = geo.some_points(rng, kind, n, ell)
    return Held(rng, kind, ell, origin, X, wrap or str(rng.choice(["plain", "mass", "observer"])))


def sibling(rng, h, mon):
    """another dataset, created with the same objects as an existing one (not converted yet)"""
    X, array = h.X0, h.given[1]
    if rng.random() < 0.7:
        X, array = geo.some_points(rng, h.kind, int(rng.integers(1, 7)), h.ell), None
    mon.event("sharing a crs")
    return Held(rng, h.kind, h.ell, h.origin, X, str(rng.choice(["plain", "mass", "observer"])), h.given[0], array)


def step(rng, mon, h, op=None, arg=None):
    op = op or str(rng.choice(OPS, p=[0.3, 0.3, 0.3, 0.1]))
    before, X = geo.name_of(h.ds.crs), np.array(h.ds.coords)
    if op == "to_enu":
        arg = arg or geo.some_origin(rng)
        h.log.append((op, *arg))
        h.obj.to_enu(*arg)
    else:
        h.log.append((op,))
        getattr(h.obj, op)()
    mon.event(op)
    expect_tag(mon, h, op, arg, before)
    return op, arg, before, X


def case(family, i, rng, mon):
    if family == "pairs":
        kinds = ["ellps", "enu", "ecef", "cart"]
        ells = sorted(geo.ELL) + [None]
        h = new(rng, kinds[i % 4], ells[(i // 4) % len(ells)])
        hs = [h]
        n = 2
    elif family == "exotic":
        # far inside, far outside, on the axes
        h = new(rng, "ecef", wrap="plain")
        X = rng.normal(size=(4, 3)) * 10 ** rng.uniform(5, 8.5)
        X[0] = np.eye(3)[int(rng.integers(3))] * 10 ** rng.uniform(5, 8) * rng.choice([-1, 1])
        h = Held(rng, "ecef", None, None, X, "plain")
        hs = [h]
        n = 4
    else:
        hs = [new(rng) for _ in range(int(rng.integers(1, 4)))]
        if rng.random() < 0.25:
            hs.append(sibling(rng, hs[0], mon))
        n = int(rng.integers(1, 9))
    for _ in range(n):
        r = rng.random()
        masses = [h for h in hs if h.wrap == "mass"]
        if r < 0.15 and masses:
            # functions on a list of masses
            import geec.mass

            op = str(rng.choice(OPS))
            arg = geo.some_origin(rng) if op == "to_enu" else None
            before = [geo.name_of(h.ds.crs) for h in masses]
            for h in masses:
                h.log.append((op, *(arg or ())))
            getattr(geec.mass, op)([h.obj for h in masses], *(arg or ()))
            mon.event(op)
            for h, b in zip(masses, before):
                expect_tag(mon, h, op, arg, b)
            done = masses
        else:
            h = hs[int(rng.integers(len(hs)))]
            op, arg, before, X = step(rng, mon, h)
            done = [h]
            if rng.random() < 0.3:
                # repeat: nothing may change
                X = np.array(h.ds.coords)
                tag = geo.name_of(h.ds.crs)
                step(rng, mon, h, op, arg)
                mon.event("repeated conversion")
                Y = np.asarray(h.ds.coords)
                if geo.name_of(h.ds.crs) != tag or Y.shape != X.shape or not np.allclose(X, Y, rtol=1e-13, atol=1e-9):
                    mon.violate(f"repeating {op} changed the data", before=X, now=Y, **h.describe())
                    return
        for h in hs:
            if h not in done:
                mon.event("other dataset compared")
            if not check(mon, h, "converted" if h in done else "another dataset was converted"):
                return
    for h in hs:
        if h.kind != "cart" and h.log:
            mon.evaluated(h.kind, h.ell if isinstance(h.ell, str) or h.ell is None else "custom", [x[0] for x in h.log], h.wrap)
    mon.sample({"start": hs[0].kind, "ellipsoid": hs[0].ell, "coords": hs[0].X0[:2], "conversions": hs[0].log, "end": hs[0].ds.coords[:2]})
