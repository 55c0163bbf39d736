"""C17 copies are complete and independent"""

import copy
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from gv import core, faults, gen, geo, grav, refmodel, runs
from gv.checks.c16 import kept, public

LEVEL = "exploration"
RULE = (
    "Bodies, stations, datasets, masses and observers are made, partly used (also half evaluated: an evaluation is interrupted at a random line), copied with deepcopy or any pickle protocol, also copies of copies and several objects "
    "at once, and original, copies and an uncopied twin are then used in random order, the copies' arrays also overwritten. Every result of original and copy is compared bit for bit with the twin's; the public state of the original "
    "with what it was before each use of a copy; a few pickled bodies and datasets are used in new processes. Distinct and non-trivial by (object, way of copying, state, use)."
)
ASSUMPTIONS = ["copy.copy shares arrays by its nature and is only required to copy, not to be independent", "the new processes run on the same machine"]
REQUIRED = ["copied", "result compared", "original compared", "copied half evaluated", "copied in a list", "used in a new process", "copied dataset converted", "copied station continued", "copy overwritten", "copied dataset overwritten"]

GC = 6.67408e-11
WAYS = ("deepcopy", "pickle2", "pickle3", "pickle4", "pickle5", "twice")


def setup(tier):
    runs.prepare()


def plan(tier):
    if tier == "quick":
        return [("body", 400, 10), ("data", 600, 15), ("process", 6, 1)]
    return [("body", 6000, 10), ("data", 10000, 15), ("process", 40, 1)]


def duplicate(x, way):
    if way == "deepcopy":
        return copy.deepcopy(x)
    if way == "twice":
        return pickle.loads(pickle.dumps(copy.deepcopy(x)))
    return pickle.loads(pickle.dumps(x, int(way[-1])))


def same(r, t):
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(r, t))


def get(o, *args):
    return [np.array(x) for x in o.get_gravity(*args)]


# --- bodies and stations --------------------------------------------------------------------
def case_body(i, rng, mon):
    P, kind, where = gen.body_points(rng)
    if len(P) > 120:
        P = P[:60]
    b = refmodel.Body(P)
    given = P.copy()
    body, twin = grav.polyhedron(given), grav.polyhedron(P.copy())
    if rng.random() < 0.3:
        # what happens to the caller's array later is of no importance to the body
        given[:] = rng.normal(size=given.shape)
    S = [gen.station(rng, b, str(rng.choice(gen.STATION_KINDS))) for _ in range(4)]
    st, stwin = grav.station(S[0].copy()), grav.station(S[0].copy())
    log, copies = [], []

    def evaluate(o, t, name):
        k, (rho, gc), grad = int(rng.integers(4)), gen.physics(rng), bool(rng.random() < 0.5)
        log.append(("evaluate", name, k, rho, gc, grad))
        r, e = get(o, S[k].copy(), rho, gc, grad), get(t, S[k].copy(), rho, gc, grad)
        mon.event("result compared")
        mon.evaluated(name, kind, where, grad, len(log))
        if not same(r, e):
            mon.violate(f"{name} gives another result than a body made anew", points=P, stations=S, history=log, got=r, expected=e)
            return False
        return True

    def interrupted(o):
        n = int(rng.integers(1, 400))
        if faults.run(lambda: o.get_gravity(S[1].copy(), 1000.0, GC, True), n)[0] == "injected":
            log.append(("interrupted", n))
            mon.event("copied half evaluated")

    for _ in range(int(rng.integers(3, 9))):
        r = rng.random()
        if r < 0.2:
            if not evaluate(body, twin, "original"):
                return
        elif r < 0.3:
            interrupted(body)
        elif r < 0.55:
            way = str(rng.choice(WAYS))
            if rng.random() < 0.3:
                # a list that holds the same body twice
                L = duplicate([body, st, body], way)
                c = L[int(rng.choice([0, 2]))]
                way += " of a list"
                mon.event("copied in a list")
            else:
                c = duplicate(copies[-1] if copies and rng.random() < 0.3 else body, way)
            copies.append(c)
            log.append(("copy", way))
            mon.event("copied")
            if rng.random() < 0.5 and not evaluate(c, twin, f"copy ({way})"):
                return
        elif r < 0.7 and copies:
            j = int(rng.integers(len(copies)))
            if not evaluate(copies[j], twin, "copy"):
                return
        elif r < 0.8 and copies:
            # the copy goes its own way
            c = copies.pop()
            log.append("overwrite copy")
            before = public(body)
            for x in [c.points] + [x for f in c.faces for x in (f.points, f.un, *(e.vector for e in f.edges))]:
                if x.flags.writeable:
                    x[:] = 0
            mon.event("copy overwritten")
            mon.event("original compared")
            if not kept(before, public(body)):
                mon.violate("overwriting the arrays of a copy changed the original", points=P, history=log)
                return
        else:
            way = str(rng.choice(WAYS))
            rho, gc = gen.physics(rng)
            if rng.random() < 0.6:
                st.compute_gravity(body, rho, gc, gradient=True)
                stwin.compute_gravity(twin, rho, gc, gradient=True)
            cs = duplicate(st, way)
            log.append(("copied station", way))
            mon.event("copied station continued")
            before = [np.array(st.coord), np.array(st.G), np.array(st.T)]
            if not same([cs.coord, cs.G, cs.T], before):
                mon.violate("a copied station has another place or field than the original", points=P, history=log, got=[cs.coord, cs.G, cs.T], expected=before)
                return
            fresh = grav.station(S[0].copy())
            cs.compute_gravity(copies[-1] if copies else body, rho, gc, gradient=True)
            fresh.compute_gravity(twin, rho, gc, gradient=True)
            mon.event("original compared")
            if not same([st.coord, st.G, st.T], before):
                mon.violate("using a copied station changed the original", points=P, history=log)
                return
            if not same([cs.G, cs.T], [before[1] + fresh.G, before[2] + fresh.T]):
                mon.violate("a copied station does not add up", points=P, station=S[0], history=log, got=[cs.G, cs.T], expected=[before[1] + fresh.G, before[2] + fresh.T])
                return
    if not evaluate(body, twin, "original"):
        return
    if not same([st.G, st.T], [stwin.G, stwin.T]):
        mon.violate("a station that was copied has another field than one that was not", points=P, history=log)
        return
    mon.sample({"body": (kind, where), "history": log})


# --- data -----------------------------------------------------------------------------------
def case_data(i, rng, mon):
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer

    kind = ["ellps", "enu", "ecef", "cart"][i % 4]
    ell, origin = geo.some_ellipsoid(rng), geo.some_origin(rng)
    X = geo.some_points(rng, kind, int(rng.integers(1, 6)), ell)
    vd = str(rng.choice(["ellps", "egm84", "egm96", "egm2008"])) if kind == "ellps" else "ellps"
    if kind == "ellps":
        # heights are looked up after longitudes have been wrapped
        X[:, 0] = (X[:, 0] + 180.0) % 360.0 - 180.0
    wrap = int(rng.integers(3))

    def make():
        ds = geec.dataset.Dataset(coords=X.copy(), crs=geo.make_crs(kind, ell, origin if kind == "enu" else None, vd))
        return ds if wrap == 0 else geec.mass.Mass(density=2.0, gravity_constant=GC, dataset=ds) if wrap == 1 else geec.observer.Observer(dataset=ds)

    objs = [(make(), make(), "original")]
    log = []
    w = dict(coords=X, kind=kind, ellipsoid=ell, origin=origin, vdatum=vd, history=log)
    for _ in range(int(rng.integers(3, 9))):
        j = int(rng.integers(len(objs)))
        o, t, name = objs[j]
        if rng.random() < 0.4 and len(objs) < 5:
            way = str(rng.choice(WAYS))
            log.append(("copy", j, way))
            c = duplicate(o, way)
            mon.event("copied")
            a, b = public(o), public(c)
            mon.event("result compared")
            if not (kept(a, b) or kept(b, a)):
                mon.violate(f"a copy ({way}) of {type(o).__name__} differs from the original", **w)
                return
            if (c.crs if wrap == 0 else c.dataset.crs) != (o.crs if wrap == 0 else o.dataset.crs):
                mon.violate(f"the coordinate system of a copy ({way}) is not equal to the original's", **w)
                return
            # its twin has the same history, without copies
            objs.append((c, replay(make(), t), f"copy ({way})"))
            continue
        op = str(rng.choice(["to_ecef", "to_wgs84", "to_enu", "to_lon180", "to_ellipsoid_height"]))
        if op == "to_ellipsoid_height" and wrap == 2:
            op = "to_wgs84"
        arg = geo.some_origin(rng) if op == "to_enu" else ()
        if rng.random() < 0.15:
            # what it holds is written into
            op, arg = "write", (float(rng.normal()), float(rng.uniform(1, 5)))
            mon.event("copied dataset overwritten")
        log.append((op, j, *arg))
        others = [public(x[0]) for k, x in enumerate(objs) if k != j]
        do(o, op, arg)
        do(t, op, arg)
        HIST.setdefault(id(t), []).append((op, arg))
        mon.event("result compared")
        mon.event("original compared")
        if len(objs) > 1:
            mon.event("copied dataset converted")
        mon.evaluated(op, name, kind, wrap, vd)
        a, b = public(o), public(t)
        if not (kept(a, b) or kept(b, a)):
            mon.violate(f"{op} of the {name} gives something else than for an object that was never copied", **w)
            return
        if not all(kept(x, public(y[0])) for x, y in zip(others, [x for k, x in enumerate(objs) if k != j])):
            mon.violate(f"{op} of the {name} changed another copy", **w)
            return
    HIST.clear()
    mon.sample({"kind": kind, "history": log})


HIST = {}


def do(o, op, arg):
    import geec.dataset

    if op != "write":
        getattr(o, op)(*arg)
        return
    ds = o if isinstance(o, geec.dataset.Dataset) else o.dataset
    ds.coords[:, 2] += arg[0]
    if geo.name_of(ds.crs) == "ellps":
        ds.crs.ellps = geo.make_ellps(a=6378137.0 + round(arg[0], 3), b=6356752.0)
    if hasattr(o, "density"):
        o.density *= arg[1]


def replay(o, t):
    for op, arg in HIST.get(id(t), []):
        do(o, op, arg)
    HIST[id(o)] = list(HIST.get(id(t), []))
    return o


# --- other processes ------------------------------------------------------------------------
CHILD = """
import pickle, sys
from loguru import logger
logger.remove()
with open(sys.argv[1], "rb") as f:
    work = pickle.load(f)
out = []
for o, calls in work:
    for name, args in calls:
        r = getattr(o, name)(*args)
        out.append(r if r is not None else [o.coords] if hasattr(o, "coords") else [o.G, o.T])
with open(sys.argv[2], "wb") as f:
    pickle.dump(out, f)
"""


def case_process(i, rng, mon):
    import geec.dataset

    wd = runs.Work("c17.")
    try:
        work, expected = [], []
        for _ in range(8):
            P, kind, where = gen.body_points(rng, kind=str(rng.choice(["cube", "tetra", "box", "cloud", "octa"])))
            b = refmodel.Body(P)
            body, twin = grav.polyhedron(P.copy()), grav.polyhedron(P.copy())
            calls = [("get_gravity", (gen.station(rng, b, "out"), *gen.physics(rng), bool(rng.random() < 0.5))) for _ in range(3)]
            if rng.random() < 0.5:
                body.get_gravity(*calls[0][1])
            work.append((body, calls))
            expected += [get(twin, *a) for _, a in calls]
            st, fresh = grav.station(calls[0][1][0]), grav.station(calls[0][1][0].copy())
            work.append((st, [("compute_gravity", (body, 1000.0, GC, True))]))
            fresh.compute_gravity(twin, 1000.0, GC, True)
            expected.append([fresh.G, fresh.T])
            k = str(rng.choice(["ellps", "enu", "ecef"]))
            ell, origin = geo.some_ellipsoid(rng), geo.some_origin(rng)
            X = geo.some_points(rng, k, 4, ell)
            two = [geec.dataset.Dataset(coords=X.copy(), crs=geo.make_crs(k, ell, origin if k == "enu" else None)) for _ in range(2)]
            seq = [("to_wgs84", ()), ("to_enu", geo.some_origin(rng)), ("to_ecef", ())]
            work.append((two[0], seq))
            for name, a in seq:
                getattr(two[1], name)(*a)
                expected.append([np.array(two[1].coords)])
        src, dst = os.path.join(wd.cwd, "in"), os.path.join(wd.cwd, "out")
        with open(src, "wb") as f:
            pickle.dump(work, f, int(rng.integers(2, 6)))
        env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-c", CHILD, src, dst], cwd=wd.cwd, env=env, capture_output=True, text=True, timeout=300)
        if r.returncode:
            mon.violate("using pickled bodies, stations and datasets in a new process fails", error=r.stderr[-1500:])
            return
        with open(dst, "rb") as f:
            got = pickle.load(f)
        mon.event("used in a new process")
        mon.event("copied")
        for k, (g, e) in enumerate(zip(got, expected)):
            mon.event("result compared")
            if not same(g, e):
                mon.violate("a body, station or dataset sent to another process gives another result there", number=k, got=g, expected=e)
                return
        mon.evaluated("process", i)
        mon.sample({"calls in a new process": len(got)})
    finally:
        wd.close()


def case(family, i, rng, mon):
    HIST.clear()
    {"body": case_body, "data": case_data, "process": case_process}[family](i, rng, mon)
