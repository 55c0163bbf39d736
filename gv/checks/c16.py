"""C16 looking at something never changes it"""

import contextlib
import copy
import io

import numpy as np

from gv import gen, geo, grav, refmodel, runs

LEVEL = "exploration"
RULE = (
    "Bodies, faces, edges, stations, datasets, coordinate systems, masses, observers and configurations are made, partly used, and looked at in random order and number: repr, str, format, print, "
    "rich printing, rich fields, plotting (the figure is captured instead of shown), listing attributes and properties, showing the configuration, and any level of logging. Before and after each look the monitor compares, bit for bit, all "
    "arrays and fields reachable from the object, what it computes next (against a twin nobody looked at), and the caller's arrays. Figures are compared with the edges of the body. "
    "Distinct and non-trivial by (object, way of looking, state, options)."
)
ASSUMPTIONS = ["what exactly is printed is not judged, except version and log directory", "plotly's Figure.show is replaced by a recorder"]
REQUIRED = ["looked", "state compared", "result compared", "figure compared", "logged at trace level", "configuration shown", "dataset looked at", "version printed", "log directory printed"]

GC = 6.67408e-11


def setup(tier):
    runs.prepare()


def plan(tier):
    if tier == "quick":
        return [("body", 400, 10), ("figure", 120, 6), ("data", 400, 10), ("config", 60, 3), ("log", 160, 8), ("command", 8, 1)]
    return [("body", 6000, 10), ("figure", 1500, 6), ("data", 6000, 10), ("config", 800, 3), ("log", 3000, 8), ("command", 16, 1)]


# --- state ----------------------------------------------------------------------------------
def public(x, seen=None):
    """the data reachable from an object through public fields; private ones may be computed at any time"""
    seen = set() if seen is None else seen
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic)):
        return repr(x)
    if id(x) in seen:
        return "again"
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        return [public(v, seen) for v in x]
    if isinstance(x, dict):
        return [(repr(k), public(v, seen)) for k, v in sorted(x.items(), key=lambda t: repr(t[0]))]
    if (type(x).__module__ or "").startswith(("geec", "pymap3d")):
        names = set(getattr(x, "__dict__", {})) | {s for c in type(x).__mro__ for s in getattr(c, "__slots__", ())}
        return {n: public(getattr(x, n, None), seen) for n in sorted(names) if not n.startswith("_")}
    return type(x).__name__


def kept(before, after):
    """all that was there is there unchanged (values computed in the meantime may have been added)"""
    if isinstance(before, dict):
        return isinstance(after, dict) and all(n in after and kept(v, after[n]) for n, v in before.items())
    if isinstance(before, list):
        return isinstance(after, list) and len(before) == len(after) and all(kept(x, y) for x, y in zip(before, after))
    return before == after or (before == "again") != (after == "again")


class Recorder:
    """stands in for plotly's Figure.show"""

    def __init__(self):
        self.figures = []

    def __enter__(self):
        import plotly.basedatatypes as b

        self.mod, self.real = b.BaseFigure, b.BaseFigure.show
        rec = self

        def show(fig, *args, **kwargs):
            rec.figures.append(fig)

        b.BaseFigure.show = show
        return self

    def __exit__(self, *a):
        self.mod.show = self.real


def quiet(fn):
    """with standard output and error captured; restores what rich holds on to"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        fn()
    return out.getvalue()


WAYS = ("repr", "str", "format", "print", "rich", "fields", "attributes", "repr", "copy")


def look(x, way):
    if way == "repr":
        return quiet(lambda: repr(x))
    if way == "str":
        return quiet(lambda: str(x))
    if way == "format":
        return quiet(lambda: f"{x}")
    if way == "print":
        return quiet(lambda: print(x))
    if way == "rich":
        from rich.pretty import pprint

        return quiet(lambda: pprint(x))
    if way == "fields":
        return quiet(lambda: list(x.__rich_repr__()) if hasattr(x, "__rich_repr__") else vars(x) if hasattr(x, "__dict__") else dir(x))
    if way == "copy":
        return copy.copy(x) and ""
    # properties too
    for n in dir(x):
        if not n.startswith("__"):
            getattr(x, n)
    return ""


# --- bodies and stations --------------------------------------------------------------------
def case_body(i, rng, mon):
    b, P, what, _ = some(rng)
    given = P.copy()
    body, twin = grav.polyhedron(given), grav.polyhedron(P.copy())
    S = [gen.station(rng, b, str(rng.choice(gen.STATION_KINDS))) for _ in range(3)]
    if rng.random() < 0.3:
        # nearly on an axis of a box: components of very different size
        P = gen.box(rng.uniform(0.5, 3, 3)) + np.round(rng.normal(size=3) * 5)
        b, what = refmodel.Body(P), ("box", "axis")
        given = P.copy()
        body, twin = grav.polyhedron(given), grav.polyhedron(P.copy())
        u = np.eye(3)[int(rng.integers(3))]
        S[0] = P.mean(axis=0) + u * rng.uniform(4, 9) + 10.0 ** rng.uniform(-15, -3, 3)
    st, st2 = grav.station(S[0].copy()), grav.station(S[0].copy())
    log = []
    for _ in range(int(rng.integers(2, 7))):
        if rng.random() < 0.4:
            k = int(rng.integers(3))
            rho, gc = gen.physics(rng)
            grad = bool(rng.random() < 0.5)
            if rng.random() < 0.5:
                st.compute_gravity(body, rho, gc, gradient=grad)
                st2.compute_gravity(twin, rho, gc, gradient=grad)
                r, t = (st.G, st.T), (st2.G, st2.T)
            else:
                r, t = body.get_gravity(S[k].copy(), rho, gc, grad), twin.get_gravity(S[k].copy(), rho, gc, grad)
            log.append(("evaluate", k, rho, gc, grad))
            mon.event("result compared")
            if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(r, t)):
                mon.violate("a body or station that was looked at gives another result than one that was not", points=P, stations=S, history=log, got=r, expected=t)
                return
            continue
        f = body.faces[int(rng.integers(len(body.faces)))]
        name, x = [("body", body), ("face", f), ("edge", f.edges[int(rng.integers(len(f.edges)))]), ("station", st)][int(rng.integers(4))]
        way = str(rng.choice(WAYS))
        if name == "body" and len(body.faces) > 60 and way not in ("fields", "attributes"):
            way = "fields"
        log.append((name, way))
        before = [public(body), public(st)]
        look(x, way)
        mon.event("looked")
        mon.event("state compared")
        after = [public(body), public(st)]
        if not kept(before, after) or given.tobytes() != P.tobytes():
            mon.violate(f"{way} of a {name} changed the {'body' if not kept(before[0], after[0]) else 'station' if not kept(before[1], after[1]) else 'array given by the caller'}", points=P, history=log)
            return
        mon.evaluated(name, way, what, len(log))
    k = int(rng.integers(3))
    r, t = body.get_gravity(S[k].copy(), 1000.0, GC, True), twin.get_gravity(S[k].copy(), 1000.0, GC, True)
    mon.event("result compared")
    if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(r, t)):
        mon.violate("a body that was looked at gives another result than one that was not", points=P, stations=S, history=log, got=r, expected=t)
        return
    mon.sample({"body": what, "points": len(P), "history": log})


def some(rng):
    P, kind, where = gen.body_points(rng)
    return refmodel.Body(P), P, (kind, where), None


# --- figures --------------------------------------------------------------------------------
def segments(fig):
    """(points drawn, segments drawn) of a figure of lines; None where something else draws the body"""
    pts, seg, lines = set(), set(), True
    for t in fig.data:
        x, y, z = (getattr(t, a, None) for a in "xyz")
        if x is None or y is None or z is None:
            continue
        Q = [None if any(v is None or v != v for v in q) else tuple(float(v) for v in q) for q in zip(x, y, z)]
        pts |= {q for q in Q if q is not None}
        mode = getattr(t, "mode", None)
        if t.type != "scatter3d" or (mode is not None and "lines" not in mode):
            lines = lines and t.type == "scatter3d"
            continue
        for a, c in zip(Q, Q[1:]):
            if a is not None and c is not None and a != c:
                seg.add(frozenset((a, c)))
    return pts, seg if lines else None


def case_figure(i, rng, mon):
    b, P, what, _ = some(rng)
    if len(P) > 60:
        P = P[:60]
    given = P.copy()
    try:
        body = grav.polyhedron(given)
        twin = grav.polyhedron(P.copy())
    except Exception:
        # fewer points may not span a volume
        return
    before = public(body)
    with Recorder() as rec:
        quiet(lambda: body.plot())
        if rng.random() < 0.5:
            quiet(lambda: body.plot())
    mon.event("looked")
    mon.event("state compared")
    if not kept(before, public(body)) or given.tobytes() != P.tobytes():
        mon.violate("plotting changed the body or the caller's array", points=P)
        return
    s = rng.normal(size=3) * 3
    r, t = body.get_gravity(s, 1000.0, GC, True), twin.get_gravity(s, 1000.0, GC, True)
    mon.event("result compared")
    if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(r, t)):
        mon.violate("a plotted body gives another result than one that was not", points=P, got=r, expected=t)
        return
    if not rec.figures:
        mon.violate("plot shows nothing", points=P)
        return
    for fig in rec.figures:
        pts, seg = segments(fig)
        want = {frozenset((tuple(map(float, e.start)), tuple(map(float, e.end)))) for f in body.faces for e in f.edges}
        corners = {q for e in want for q in e}
        mon.event("figure compared")
        if pts != corners:
            mon.violate(f"the figure has {len(pts)} different points, the body {len(corners)} corners", points=P, extra=list(pts - corners)[:5], missing=list(corners - pts)[:5])
            return
        if seg is not None and seg != want:
            mon.violate(f"the figure has {len(seg)} different edges, the body {len(want)}", points=P, extra=[list(x) for x in list(seg - want)[:3]], missing=[list(x) for x in list(want - seg)[:3]])
            return
    mon.evaluated("figure", what, len(want))
    mon.sample({"body": what, "edges drawn": len(want)})


# --- data -----------------------------------------------------------------------------------
def case_data(i, rng, mon):
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer

    kind = ["ellps", "enu", "ecef", "cart"][i % 4]
    ell, origin = geo.some_ellipsoid(rng), geo.some_origin(rng)
    X = geo.some_points(rng, kind, int(rng.integers(1, 6)), ell)
    wrap = int(rng.integers(3))

    def make():
        ds = geec.dataset.Dataset(coords=X.copy(), crs=geo.make_crs(kind, ell, origin if kind == "enu" else None))
        return ds if wrap == 0 else geec.mass.Mass(density=2.0, gravity_constant=GC, dataset=ds) if wrap == 1 else geec.observer.Observer(dataset=ds)

    seen, twin = make(), make()
    log = []
    for _ in range(int(rng.integers(2, 8))):
        if rng.random() < 0.4:
            op = str(rng.choice(["to_ecef", "to_wgs84", "to_enu", "to_lon180"]))
            arg = geo.some_origin(rng) if op == "to_enu" else ()
            getattr(seen, op)(*arg)
            getattr(twin, op)(*arg)
            log.append((op, *arg))
            mon.event("result compared")
            if not (kept(public(seen), public(twin)) or kept(public(twin), public(seen))):
                mon.violate("data that were looked at are converted in another way than data that were not", coords=X, kind=kind, ellipsoid=ell, origin=origin, history=log)
                return
            continue
        ds = seen if wrap == 0 else seen.dataset
        name, x = [("data", seen), ("dataset", ds), ("crs", ds.crs), ("ellipsoid", ds.crs.ellps), ("enu", ds.crs.enu), ("columns", ds)][int(rng.integers(6))]
        way = str(rng.choice(WAYS))
        if x is None:
            continue
        before = public(seen)
        if name == "columns":
            way = "lon, lat, alt"
            c = np.array(ds.lon), np.array(ds.lat), np.array(ds.alt)
            if not np.array_equal(np.array(c).T, np.asarray(ds.coords)):
                mon.violate("lon, lat, alt are not the coordinates", coords=X, kind=kind, history=log)
                return
        else:
            look(x, way)
        log.append((name, way))
        mon.event("dataset looked at")
        mon.event("state compared")
        if not kept(before, public(seen)):
            mon.violate(f"{way} of {name} changed the data", coords=X, kind=kind, ellipsoid=ell, origin=origin, history=log)
            return
        mon.evaluated(name, way, kind, wrap)
    mon.sample({"kind": kind, "history": log})


# --- configurations -------------------------------------------------------------------------
def case_config(i, rng, mon):
    import geec.config
    import geec.mass
    import geec.observer

    work = runs.Work("c16.")
    try:
        scene = runs.Scene(rng, work, nobs=int(rng.choice([1, 4, 30, 60])), shape=None if rng.random() < 0.5 else "cloud")
        path = scene.write()
        a, b = geec.config.setup(path), geec.config.setup(path)
        read = lambda c: [public(m) for m in geec.mass.get_masses(c)] + [public(geec.observer.get_observer(c))]
        log = []
        for _ in range(int(rng.integers(1, 4))):
            how = str(rng.choice(["show", "read", "repr", "main"]))
            log.append(how)
            if how == "show":
                quiet(lambda: geec.config.show(a))
                mon.event("configuration shown")
            elif how == "read":
                read(a)
            elif how == "main":
                quiet(lambda: geec.config.main(path))
                mon.event("configuration shown")
            else:
                look(a, "repr")
            mon.event("looked")
        mon.event("state compared")
        x, y = read(a), read(b)
        if x != y:
            mon.violate("a configuration that was shown gives other masses or observers than one that was not", config=scene.config, history=log)
            return
        mon.evaluated("config", log, [m["crs"]["ref"] for m in scene.config["masses"]])
        mon.sample({"history": log})
    finally:
        work.close()


# --- logging --------------------------------------------------------------------------------
def case_log(i, rng, mon):
    """results do not depend on the log level"""
    from loguru import logger

    b, P, what, _ = some(rng)
    s = gen.station(rng, b, str(rng.choice(gen.STATION_KINDS)))
    rho, gc = gen.physics(rng)
    grad = bool(rng.random() < 0.5)
    kind = ["ellps", "enu", "ecef", "cart"][i % 4]
    ell, origin = geo.some_ellipsoid(rng), geo.some_origin(rng)
    X = geo.some_points(rng, kind, 3, ell)

    def work():
        import geec.dataset

        p, st = grav.polyhedron(P.copy()), grav.station(s.copy())
        r = []
        for k in range(3):
            st.compute_gravity([p, p] if k == 1 else p, rho / (k + 1), gc, gradient=grad)
            r += [np.array(st.G), np.array(st.T), *map(np.array, p.get_gravity(s + k, rho, gc, grad))]
        r += [np.array(st.coord), np.array(p.points)]
        ds = geec.dataset.Dataset(coords=X.copy(), crs=geo.make_crs(kind, ell, origin if kind == "enu" else None))
        for op in ("to_lon180", "to_wgs84", "to_ecef", "to_enu"):
            getattr(ds, op)(*((10.0, 50.0, 7.0) if op == "to_enu" else ()))
            r.append(np.array(ds.coords))
        return r

    logger.remove()
    base = work()
    lines = []
    for level in ("TRACE", "DEBUG", "WARNING"):
        logger.remove()
        logger.add(lines.append, level=level, format="{time} {level} {name} {function} {line} {message} {extra}", catch=False)
        try:
            got = work()
        finally:
            logger.remove()
        mon.event(f"logged at {level.lower()} level")
        mon.event("result compared")
        if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(base, got)):
            mon.violate(f"results differ when logging at level {level}", points=P, station=s, coords=X, kind=kind)
            return
    if lines:
        mon.event("lines logged", len(lines))
    mon.evaluated("log", what, kind, grad)
    mon.sample({"body": what, "lines": len(lines)})


# --- commands -------------------------------------------------------------------------------
def case_command(i, rng, mon):
    import geec

    work = runs.Work("c16.")
    try:
        before = work.tree()
        if i % 2:
            code, err, out = runs.invoke(["--log"], work)
            mon.event("log directory printed")
            ok = code == 0 and work.log in "".join(out.split("\n"))
        else:
            code, err, out = runs.invoke(["--version"], work)
            mon.event("version printed")
            ok = code == 0 and geec.__version__ in out
        if not ok:
            mon.violate(f"{'--log' if i % 2 else '--version'} printed {out!r} with status {code}", error=repr(err))
            return
        if work.tree() != before:
            mon.violate("the command wrote files", before=list(before), after=list(work.tree()))
            return
        mon.evaluated("command", i % 2)
    finally:
        work.close()


def case(family, i, rng, mon):
    {"body": case_body, "figure": case_figure, "data": case_data, "config": case_config, "log": case_log, "command": case_command}[family](i, rng, mon)
