"""C19 an operation that fails or is interrupted changes nothing"""

import os
import sys

import numpy as np

from gv import core, faults, gen, geo, grav, runs
from gv.checks.c18 import dataset, same, state

LEVEL = "fault_enumeration"
RULE = (
    "A dataset (plain, of a mass, of observers), station, configuration or command is used; in the middle of one of its computations an error or an interrupt is raised at an executed source line of the package's coordinate "
    "and gravity modules or of the libraries they call (all lines when they are few, else 25 of them), or the computation fails by itself (latitude beyond the pole, missing or cut off grid, wrong density or station). "
    "The state afterwards is compared bit for bit with the one before (or, if the operation came to its end, after); then the failed operation is repeated and others follow, on this object and on other ones, "
    "and everything is compared bit for bit with objects that never saw a failure. Distinct and non-trivial by (object, operation, place of the fault, kind of fault)."
)
ASSUMPTIONS = ["no interrupt in between the final assignments of a finished result", "an operation whose fault is swallowed by a library is not judged"]
REQUIRED = ["fault in library", "fault in package", "interrupt", "error", "state unchanged", "repeated after the fault", "other object after the fault", "heights", "to_wgs84", "to_enu", "to_ecef", "station", "failed by itself", "command repeated", "configuration read again", "list of masses"]

OPS = ("to_lon180", "to_ellipsoid_height", "to_ecef", "to_wgs84", "to_enu")


def setup(tier):
    runs.prepare()


def plan(tier):
    if tier == "quick":
        return [("convert", 480, 10), ("fails", 800, 20), ("station", 160, 5), ("config", 40, 2), ("command", 48, 2)]
    return [("convert", 9000, 20), ("fails", 8000, 50), ("station", 3000, 10), ("config", 600, 5), ("command", 800, 4)]


# --- faults ---------------------------------------------------------------------------------
_kind = {}


def kind(code):
    """2: computing module of the package, 1: library, 0: neither"""
    f = code.co_filename
    r = _kind.get(f)
    if r is None:
        p = os.path.realpath(f)
        if p.startswith(core.PKG):
            r = 2 if os.path.basename(p) in ("crs.py", "polyhedron.py", "utils.py") else 0
        else:
            r = 1 if any(f"{os.sep}{m}{os.sep}" in p for m in ("pygeodesy", "pymap3d", "confuse", "yaml", "pandas")) else 0
        _kind[f] = r
    return r


def traced(fn, k=None, exc=faults.InjectedError, only=None):
    """fn() with a fault at its k-th line: (outcome, value, number of lines, place)"""
    n = 0
    place = None

    def local(frame, event, arg):
        nonlocal n, place
        if event == "line":
            n += 1
            if n == k:
                place = (kind(frame.f_code), os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise exc("injected fault")
        return local

    def tracer(frame, event, arg):
        d = kind(frame.f_code)
        return local if d and (only is None or d == only) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        with np.errstate(all="ignore"):
            value = fn()
        out = "returned"
    except (Exception, faults.InjectedInterrupt, SystemExit) as e:
        out, value = "raised", e
    finally:
        sys.settrace(old)
    return out, value, n, place


def noted(mon, place, exc):
    mon.event("fault in package" if place[0] == 2 else "fault in library")
    mon.event("interrupt" if exc is faults.InjectedInterrupt else "error")


def choose(rng, n, most=25):
    return range(1, n + 1) if n <= most else sorted(int(k) for k in rng.choice(np.arange(1, n + 1), most, replace=False))


# --- datasets -------------------------------------------------------------------------------
def wrapper(how, ds):
    import geec.mass
    import geec.observer

    if how in ("mass", "masses"):
        return geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds)
    if how == "observer":
        return geec.observer.Observer(dataset=ds)
    return ds


def data_of(o):
    return o.dataset if hasattr(o, "dataset") else o


def some_data(rng, vd=None, wrap=True):
    k = str(rng.choice(["ellps", "enu", "ecef", "cart"], p=[0.65, 0.15, 0.15, 0.05]))
    vd = (vd or str(rng.choice(["ellps", "egm84", "egm96", "egm2008"]))) if k == "ellps" else "ellps"
    ell = geo.some_ellipsoid(rng)
    X = geo.some_points(rng, k, int(rng.integers(1, 5)), ell)
    if k == "ellps" and wrap:
        X[:, 0] = np.remainder(X[:, 0] + 180, 360) - 180
    return k, ell, geo.some_origin(rng) if k == "enu" else None, vd, X


def apply(o, op, origin):
    getattr(o, op)(*(origin if op == "to_enu" else ()))


def case_convert(i, rng, mon):
    """every place of a conversion"""
    import geec.mass

    spec = some_data(rng)
    how = str(rng.choice(["plain", "mass", "observer", "masses"], p=[0.4, 0.2, 0.2, 0.2]))
    origin = geo.some_origin(rng)
    prefix = [str(x) for x in rng.choice(OPS, int(rng.integers(0, 3)))]
    op = str(rng.choice(OPS, p=[0.1, 0.35, 0.15, 0.25, 0.15]))
    after = [op] + [str(x) for x in rng.choice(OPS, int(rng.integers(0, 3)))]
    other = some_data(rng, spec[3] if spec[3] != "ellps" else None)
    if rng.random() < 0.5 and other[0] == spec[0] == "ellps":
        # the same cell of the grid
        other[4][: len(spec[4])] = spec[4][: len(other[4])]
    if how == "masses":
        mon.event("list of masses")

    def fresh():
        n = 2 if how == "masses" else 1
        L = [wrapper(how, dataset(*spec)) for _ in range(n)]
        for p in prefix:
            for o in L:
                apply(o, p, origin)
        return L

    def act(L, op):
        if how == "masses":
            getattr(geec.mass, op)(L, *(origin if op == "to_enu" else ()))
        else:
            apply(L[0], op, origin)

    def states(L):
        return [state(data_of(o)) for o in L]

    # what happens without a fault
    L = fresh()
    before = states(L)
    trail = []
    for a in after:
        act(L, a)
        trail.append(states(L))
    o = dataset(*other)
    o.to_ellipsoid_height()
    o.to_wgs84()
    alone = state(o)
    out, _, n, _ = traced(lambda L=fresh(): act(L, op))
    if out != "returned":
        raise RuntimeError("differs when traced")
    w = dict(system=spec[0], ellipsoid=spec[1], origin=spec[2], vdatum=spec[3], coords=spec[4], wrapper=how, before=prefix, operation=op, enu_origin=origin, after=after)
    for k in choose(rng, n):
        exc = faults.InjectedInterrupt if rng.random() < 0.5 else faults.InjectedError
        L = fresh()
        out, value, _, place = traced(lambda: act(L, op), k, exc)
        if place is None:
            continue
        if out == "returned":
            mon.event("swallowed")
            continue
        noted(mon, place, exc)
        now = states(L)
        for j, s in enumerate(now):
            if not (same(s, before[j]) or same(s, trail[0][j])):
                mon.violate(f"{op}: after {exc.__name__} at {place[1]}:{place[2]} the data are neither those before nor those after the conversion", was=before[j][0], now=s[0], complete=trail[0][j][0], system_before=bytes(before[j][1].astype(np.uint8)).decode(), system_now=bytes(s[1].astype(np.uint8)).decode(), **w)
                return
        mon.event("state unchanged")
        if rng.random() < 0.5:
            o = dataset(*other)
            o.to_ellipsoid_height()
            o.to_wgs84()
            mon.event("other object after the fault")
            if not same(state(o), alone):
                mon.violate(f"another dataset is converted differently after {exc.__name__} in {op} at {place[1]}:{place[2]}", other=other[4], other_vdatum=other[3], got=o.coords, expected=alone[0], **w)
                return
        for a, e in zip(after, trail):
            act(L, a)
            mon.event("repeated after the fault")
            for s, x in zip(states(L), e):
                if not same(s, x):
                    mon.violate(f"{a} after {exc.__name__} in {op} at {place[1]}:{place[2]} gives another result", got=s[0], expected=x[0], system=bytes(s[1].astype(np.uint8)).decode(), expected_system=bytes(x[1].astype(np.uint8)).decode(), **{k: v for k, v in w.items() if k != "system"})
                    return
        mon.event("heights" if op == "to_ellipsoid_height" else op)
        mon.evaluated(spec[0], spec[3], how, op, place, exc.__name__)
    mon.sample({"system": spec[0], "vdatum": spec[3], "operation": op, "lines": n})


def case_fails(i, rng, mon):
    """conversions that fail by themselves"""
    import geec.dataset

    k, ell, origin, vd, X = some_data(rng, wrap=rng.random() < 0.5)
    how = str(rng.choice(["plain", "mass", "observer"]))
    bad = str(rng.choice(["latitude", "origin", "nan", "no grid", "cut off grid", "not numbers"]))
    if bad in ("latitude", "no grid", "cut off grid") and k != "ellps":
        k, origin, X = "ellps", None, geo.some_points(rng, "ellps", 3, ell)
        X[:, 0] = np.remainder(X[:, 0] + 180, 360) - 180
    if bad in ("no grid", "cut off grid"):
        vd = str(rng.choice(["egm84", "egm96", "egm2008"]))
    j = int(rng.integers(len(X)))
    if bad == "latitude":
        X[j, 1] = float(rng.choice([90.5, -91, 135, 1e3]))
    if bad == "nan":
        if k == "ellps" and rng.random() < 0.5:
            X[:, 0] += 360 * rng.choice([-1, 1, 2])
        X[j, int(rng.choice(3, p=[0.6, 0.2, 0.2]))] = float(rng.choice([np.nan, np.inf, -np.inf]))
    eorigin = geo.some_origin(rng)
    if bad == "origin":
        eorigin = (eorigin[0], float(rng.choice([95.0, -100.0, np.nan])), eorigin[2]) if rng.random() < 0.6 else (None, eorigin[1], eorigin[2])
    o = wrapper(how, dataset(k, ell, origin, vd, X))
    twin = wrapper(how, dataset(k, ell, origin, vd, X))
    log = []
    import pygeodesy

    grid = pygeodesy.GeoidKarney
    for _ in range(int(rng.integers(2, 6))):
        op = str(rng.choice(OPS))
        before = state(data_of(o))
        broken = bad in ("no grid", "cut off grid") and op == "to_ellipsoid_height" and rng.random() < 0.7
        arg = (str("x"),) * 3 if bad == "not numbers" and op == "to_enu" and rng.random() < 0.5 else eorigin
        if broken:
            sabotage(bad, rng)
        try:
            with np.errstate(all="ignore"):
                apply(o, op, arg)
            failed = None
        except Exception as exc:
            failed = exc
        finally:
            if broken:
                repair(grid)
        log.append((op, repr(failed)[:80] if failed else "ok"))
        w = dict(system=k, ellipsoid=ell, origin=origin, vdatum=vd, coords=X, wrapper=how, enu_origin=arg, history=log, bad=bad)
        now = state(data_of(o))
        if failed:
            mon.event("failed by itself")
            mon.event("state unchanged")
            if not same(now, before):
                mon.violate(f"{op} failed ({failed!r}) and left the data changed", was=before[0], now=now[0], system_before=bytes(before[1].astype(np.uint8)).decode(), system_now=bytes(now[1].astype(np.uint8)).decode(), **w)
                return
            mon.evaluated("fails", k, vd, how, op, bad, type(failed).__name__, len(log))
            continue
        with np.errstate(all="ignore"):
            apply(twin, op, arg)
        mon.event("repeated after the fault")
        if not same(now, state(data_of(twin))):
            mon.violate(f"{op} gives another result than without the failures before", got=now[0], expected=state(data_of(twin))[0], **w)
            return
        mon.evaluated("fails", k, vd, how, op, bad, "ok", len(log))


def sabotage(bad, rng):
    """grids cannot be opened, or end in the middle"""
    import pygeodesy
    import pygeodesy.geoids as g

    if bad == "no grid":

        class Missing(pygeodesy.GeoidKarney):
            def __init__(self, path, *a, **k):
                super().__init__(str(path) + ".missing", *a, **k)

            def __call__(self, *a, **k):
                raise OSError("grid is gone")

        pygeodesy.GeoidKarney = Missing
        _saved.append((g.GeoidKarney, "__call__", g.GeoidKarney.__call__))
        g.GeoidKarney.__call__ = Missing.__call__
    else:
        # reading fails after some values
        left = int(rng.integers(0, 30))
        base = next(c for c in g.GeoidKarney.__mro__ if "_ev" in vars(c))
        ev = base._ev

        def _ev(self, *a, **k):
            nonlocal left
            left -= 1
            if left < 0:
                raise OSError("cannot read")
            return ev(self, *a, **k)

        _saved.append((base, "_ev", ev))
        base._ev = _ev


_saved = []


def repair(grid):
    import pygeodesy

    pygeodesy.GeoidKarney = grid
    while _saved:
        c, name, f = _saved.pop()
        setattr(c, name, f)


# --- stations -------------------------------------------------------------------------------
def case_station(i, rng, mon):
    Ps = [gen.body_points(rng)[0][:25] for _ in range(int(rng.integers(1, 4)))]
    size = max(float(np.ptp(P, axis=0).max()) for P in Ps)
    S = Ps[0].mean(axis=0) + rng.normal(size=3) * size
    (rho, gc), grad = gen.physics(rng), bool(rng.random() < 0.6)
    rho = rho or 1000.0
    as_list = len(Ps) > 1 or rng.random() < 0.5
    n0 = int(rng.integers(0, 3))
    w = dict(bodies=Ps, station=S, density=rho, Gc=gc, gradient=grad, calls_before=n0)

    def fresh():
        bodies = [grav.polyhedron(P.copy()) for P in Ps]
        st = grav.station(S.copy())
        for j in range(n0):
            st.compute_gravity(bodies[j % len(bodies)], rho, gc, gradient=True)
        return bodies, st

    def act(bodies, st, rho=rho):
        st.compute_gravity(bodies if as_list else bodies[0], rho, gc, gradient=grad)

    def values(st):
        return [np.array(st.G), np.array(st.T), np.array(st.coord)]

    bodies, st = fresh()
    before = values(st)
    act(bodies, st)
    complete = values(st)
    st.compute_gravity(bodies, rho, gc, gradient=True)
    later = values(st)
    out, _, n, _ = traced(lambda f=fresh(): act(*f))
    for k in [*choose(rng, n, 12), "density", "density text", "station"]:
        bodies, st = fresh()
        exc, place = faults.InjectedError, (0, k, 0)
        try:
            if k == "density":
                st.compute_gravity(bodies, None, gc, gradient=grad)
                out = "returned"
            elif k == "density text":
                st.compute_gravity(bodies, "heavy", gc, gradient=grad)
                out = "returned"
            elif k == "station":
                kept = st.coord
                st.coord = kept[:2]
                try:
                    act(bodies, st)
                    out = "returned"
                finally:
                    st.coord = kept
            else:
                exc = faults.InjectedInterrupt if rng.random() < 0.5 else faults.InjectedError
                out, _, _, place = traced(lambda: act(bodies, st), k, exc)
                if place is None:
                    continue
                if out == "raised":
                    noted(mon, place, exc)
        except Exception:
            out = "raised"
            mon.event("failed by itself")
        if out == "returned":
            mon.event("swallowed")
            continue
        now = values(st)
        if not same(now, before):
            mon.violate(f"a gravity computation that failed ({place[1]}:{place[2]}) added something to the station", was=before[:2], now=now[:2], complete=complete[:2], **w)
            return
        mon.event("state unchanged")
        act(bodies, st)
        mon.event("repeated after the fault")
        if not same(values(st), complete):
            mon.violate(f"gravity after a computation that failed ({place[1]}:{place[2]}) differs", got=values(st)[:2], expected=complete[:2], **w)
            return
        st.compute_gravity(bodies, rho, gc, gradient=True)
        if not same(values(st), later):
            mon.violate(f"gravity after a computation that failed ({place[1]}:{place[2]}) differs", got=values(st)[:2], expected=later[:2], **w)
            return
        mon.event("station")
        mon.evaluated("station", len(Ps), place, exc.__name__, grad, n0)
    mon.sample({"bodies": len(Ps), "lines": n})


# --- configurations and commands ------------------------------------------------------------
def case_config(i, rng, mon):
    work = runs.Work("c19.")
    try:
        scenes = [runs.Scene(rng, work, nmass=int(rng.integers(1, 4))) for _ in range(2)]
        paths = [s.write(f"c{k}.yaml") for k, s in enumerate(scenes)]

        def read(path):
            import geec.config
            import geec.mass
            import geec.observer

            config = geec.config.setup(path)
            out = []
            for m in geec.mass.get_masses(config):
                out += [np.array([m.density, m.gravity_constant]), *state(m.dataset)]
            return out + state(geec.observer.get_observer(config).dataset)

        alone = [read(p) for p in paths]
        _, _, n, _ = traced(lambda: read(paths[0]))
        for k in choose(rng, n):
            exc = faults.InjectedInterrupt if rng.random() < 0.5 else faults.InjectedError
            out, _, _, place = traced(lambda: read(paths[0]), k, exc)
            if place is None:
                continue
            if out == "raised":
                noted(mon, place, exc)
            for j in rng.permutation(2):
                mon.event("configuration read again")
                if not same(read(paths[j]), alone[j]):
                    mon.violate(f"a configuration is read differently after {exc.__name__} at {place[1]}:{place[2]}", config=scenes[j].config, interrupted=scenes[0].config)
                    return
            mon.evaluated("config", place, exc.__name__)
    finally:
        work.close()


def case_command(i, rng, mon):
    work = runs.Work("c19.")
    try:
        scenes = [runs.Scene(rng, work, nmass=int(rng.integers(1, 3)), nobs=2) for _ in range(2)]
        paths = [s.write(f"c{k}.yaml") for k, s in enumerate(scenes)]
        args = [["run", f"r{k}.csv", "--config", p, "--gradient"] for k, p in enumerate(paths)]
        alone = []
        for k in range(2):
            code, exc, _ = runs.invoke(args[k], work)
            if code:
                mon.violate(f"run: exit status {code}: {exc!r}", config=scenes[k].config)
                return
            f = os.path.join(work.cwd, f"r{k}.csv")
            alone.append(open(f, "rb").read())
            os.remove(f)
        _, _, n, _ = traced(lambda: runs.invoke(args[0], work))
        f = os.path.join(work.cwd, "r0.csv")
        for k in choose(rng, n, 4):
            exc = faults.InjectedInterrupt if rng.random() < 0.5 else faults.InjectedError
            if os.path.exists(f):
                os.remove(f)
            out, value, _, place = traced(lambda: runs.invoke(args[0], work), k, exc)
            if place is None:
                continue
            if out == "raised" or value[0]:
                noted(mon, place, exc)
            else:
                mon.event("swallowed")
            for j in rng.permutation(2):
                code, e, _ = runs.invoke(args[j], work)
                mon.event("command repeated")
                g = os.path.join(work.cwd, f"r{j}.csv")
                if code or open(g, "rb").read() != alone[j]:
                    mon.violate(f"a command after one that met {exc.__name__} at {place[1]}:{place[2]} {'fails' if code else 'writes another result'}: {e!r}", config=scenes[j].config, interrupted=scenes[0].config)
                    return
                os.remove(g)
            mon.evaluated("command", place, exc.__name__)
    finally:
        work.close()


def case(family, i, rng, mon):
    if family == "convert":
        case_convert(i, rng, mon)
    elif family == "fails":
        case_fails(i, rng, mon)
    elif family == "station":
        case_station(i, rng, mon)
    elif family == "config":
        case_config(i, rng, mon)
    else:
        case_command(i, rng, mon)
