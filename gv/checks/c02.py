"""C02 gradient tensor is the spatial derivative of gravity"""

import numpy as np

from gv import gen, grav, refmodel
from gv.checks import c01

LEVEL = "exploration"
RULE = (
    "Bodies and stations as for C01 (stations on the surface left out); each tensor is compared with the "
    "extended-precision reference within 10x its forward error bound, must be symmetric, have the trace of Poisson's "
    "equation, and come with the gravity vector of a gradient-free evaluation; in the family 'difference' it is compared with "
    "central differences of the gravity computed by the code itself. Distinct and non-trivial by (body kind, placement, number of "
    "faces, station kind, decade of edge distance, inside/outside, entry point)."
)
ASSUMPTIONS = c01.ASSUMPTIONS + [
    "positions closer to the surface than 200 units in the last place of the coordinates count as on the surface",
]
REQUIRED = ["T compared", "trace inside", "trace outside", "difference compared", "G with gradient compared", "reference validated"]


def setup(tier):
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("matrix", 17 * 7 * 4, 4), ("random", 1500, 10), ("big", 8, 1), ("reference", 4, 1), ("extreme", 200, 10), ("difference", 300, 10)]
    return [("matrix", 17 * 7 * 30, 8), ("random", 30000, 50), ("big", 100, 1), ("reference", 40, 1), ("extreme", 4000, 20), ("difference", 8000, 40)]


def difference(i, rng, mon):
    P, kind, where = gen.body_points(rng)
    b = refmodel.Body(P)
    p = grav.polyhedron(P)
    rho, gc = gen.physics(rng)
    for _ in range(3):
        k = str(rng.choice(["out", "near", "inside", "deep", "plane", "line", "aligned", "nearface"]))
        s = gen.station(rng, b, k)
        sd = float(b.surface_distance(s)[0])
        h = min(sd / 20, b.size / 100)
        m = max(b.maxabs, float(np.abs(s).max()))
        if h < 1e6 * grav.EPS * m:
            continue
        _, T = grav.evaluate(p, s, rho, gc, True)
        T = grav.mat(T)
        c = abs(rho * gc)
        worst, tolmax = 0.0, 0.0
        for j in range(3):
            e = np.zeros(3)
            e[j] = h
            a, z = s + e, s - e
            step = np.longdouble(a[j]) - np.longdouble(z[j])
            Ga, _ = grav.evaluate(p, a, rho, gc)
            Gz, _ = grav.evaluate(p, z, rho, gc)
            d = (grav.vec(Ga) - grav.vec(Gz)) / step * (grav.EOTVOS / grav.MGAL)
            f = refmodel.field(b, np.array([a, z, s]))
            # truncation of the central difference: bounded with the distance to the surface
            trunc = c * grav.EOTVOS * 60 * (h / sd) ** 2
            tol = grav.K * (f.gb[:2].sum() / float(step) + f.Tb[2]) * c * grav.EOTVOS + trunc
            err = float(np.abs(d - T[:, j]).max())
            if err > tol:
                mon.violate(f"T[:, {j}] is not the derivative of the computed gravity: {err:.3g} > {tol:.3g} E", points=b.P, station=s, density=rho, Gc=gc, T=T, difference=d, kind=k)
            worst, tolmax = max(worst, err), max(tolmax, tol)
        mon.event("difference compared")
        mon.evaluated("difference", kind, where, k, grav.dist_class(h, b.size))


def case(family, i, rng, mon):
    if family in ("reference",):
        return c01.case(family, i, rng, mon)
    if family == "difference":
        return difference(i, rng, mon)
    rho, gc = gen.physics(rng)
    how = "plain"
    if family == "matrix":
        P, kind, where = gen.body_points(rng, gen.BODY_KINDS[i % len(gen.BODY_KINDS)], gen.PLACES[(i // len(gen.BODY_KINDS)) % len(gen.PLACES)])
        kinds = list(gen.STATION_KINDS)
    elif family == "big":
        kind, where = "sphere", "origin"
        P = rng.normal(size=(int(rng.integers(80, 250)), 3))
        P = P / np.linalg.norm(P, axis=1)[:, None] * 10 ** rng.uniform(-1, 3) + rng.normal(size=3)
        kinds = list(rng.choice(gen.STATION_KINDS, 6))
    elif family == "extreme":
        kind = str(rng.choice(["cube", "tetra", "inttetra", "octa", "roof"]))
        P = gen.shape(rng, kind) * float(10.0 ** rng.integers(-9, 10))
        where = "pow10"
        kinds = list(rng.choice(gen.STATION_KINDS, 8))
    else:
        P, kind, where = gen.body_points(rng)
        P, how = c01.hostile_points(rng, P)
        kinds = list(rng.choice(gen.STATION_KINDS, 6))
    label = f"{kind}/{where}/{how}"
    b = refmodel.Body(P)
    p = grav.polyhedron(P)
    S = np.array([gen.station(rng, b, k) for k in kinds])
    if how == "int" and rng.random() < 0.5:
        S = np.round(S).astype(np.int64)
    f = refmodel.field(b, S)
    off, _ = grav.off_surface(b, S)
    ins, ed = b.inside_depth(S), b.edge_distance(S)
    c = np.longdouble(rho) * np.longdouble(gc)
    for k, s, ok, g, T0, gb, Tb, i_, e in zip(kinds, S, off, f.g, f.T, f.gb, f.Tb, ins, ed):
        api = str(rng.choice(["station", "polyhedron"]))
        w = dict(points=b.P, station=s, density=rho, Gc=gc, kind=k, body=label, api=api)
        G, T = grav.evaluate(p, s, rho, gc, True, api)
        G, T = grav.vec(G), grav.mat(T)
        # the option must not change gravity
        G1, T1 = grav.evaluate(p, s, rho, gc, False, api)
        d = float(np.abs(G - grav.vec(G1)).max())
        mon.event("G with gradient compared")
        if not d <= grav.K * gb * abs(float(c)) * grav.MGAL:
            mon.violate(f"asking for the gradient changes gravity by {d:.3g} mGal", **w)
        if not ok:
            mon.event("station on surface: tensor not judged")
            continue
        u = abs(float(c)) * grav.EOTVOS
        tol = grav.K * Tb * u
        err = float(np.abs(T - T0 * c * grav.EOTVOS).max())
        mon.event("T compared")
        mon.evaluated(label, len(b.tri), k, grav.dist_class(e, b.size), i_ > 0, api)
        mon.sample({"body": label, "station_kind": k, "T": T, "reference": T0 * c * grav.EOTVOS, "tolerance": tol})
        if not err <= tol:
            mon.violate(f"tensor differs from the reference: {err:.3g} > {tol:.3g} E", T=T, reference=T0 * c * grav.EOTVOS, **w)
        if not float(np.abs(T - T.T).max()) <= 2 * tol:
            mon.violate("tensor is not symmetric", T=T, **w)
        tr = float(np.trace(T)) - (-4 * np.pi * float(c) * grav.EOTVOS if i_ > 0 else 0.0)
        mon.event("trace inside" if i_ > 0 else "trace outside")
        if not abs(tr) <= 3 * tol:
            mon.violate(f"trace is off by {tr:.3g} E (tolerance {3 * tol:.3g})", T=T, **w)
