"""C01 gravity equals the Newtonian attraction of the body"""

import numpy as np

from gv import gen, grav, refmodel

LEVEL = "exploration"
RULE = (
    "A case builds one body (17 kinds of shape x 7 placements, random order, repeats, interior points, integer/"
    "float32/strided input) and evaluates it at stations of 20 kinds (outside, inside, on and near faces, edges and corners, in "
    "face planes and edge lines, far) through Station or Polyhedron, with and without gradient; each gravity vector "
    "is compared with an extended-precision Werner-Scheeres reference within 10x its forward error bound. "
    "An evaluation counts as distinct and non-trivial by (body kind, placement, number of faces, station kind, "
    "decade of surface distance, inside/outside, entry point, input type), with a non-zero reference field."
)
ASSUMPTIONS = [
    "the reference model (validated on every run against volume quadrature and Poisson's equation) is right",
    "numpy extended precision is wider than double",
]
REQUIRED = ["G compared", "reference validated", "inside", "outside", "on surface", "via Polyhedron", "via Station"]


def setup(tier):
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("matrix", 17 * 7 * 4, 4), ("random", 1500, 10), ("big", 8, 1), ("reference", 4, 1), ("extreme", 200, 10), ("thin", 200, 10)]
    return [("matrix", 17 * 7 * 40, 8), ("random", 40000, 50), ("big", 100, 1), ("reference", 40, 1), ("extreme", 4000, 20), ("thin", 8000, 40)]


def compare(mon, b, p, kinds, S, rho, gc, rng, label):
    f = refmodel.field(b, S)
    sd, ins = b.surface_distance(S), b.inside_depth(S)
    for k, s, g, gb, d, i in zip(kinds, S, f.g, f.gb, sd, ins):
        api = str(rng.choice(["station", "polyhedron"]))
        grad = bool(rng.random() < 0.25)
        try:
            G, _ = grav.evaluate(p, s, rho, gc, grad, api)
        except Exception as exc:
            mon.violate(f"evaluation raised {exc!r}", points=b.P, station=s, density=rho, Gc=gc, gradient=grad, kind=k, body=label)
            continue
        c = np.longdouble(rho) * np.longdouble(gc) * grav.MGAL
        G = grav.vec(G)
        err = float(np.abs(G - g * c).max())
        tol = grav.K * gb * abs(float(c))
        mon.event("G compared")
        mon.event("via Polyhedron" if api == "polyhedron" else "via Station")
        mon.event("on surface" if d < 1e-14 * b.size else "inside" if i > 0 else "outside")
        if float(np.abs(g).max()) > 0:
            mon.evaluated(label, len(b.tri), k, grav.dist_class(d, b.size), i > 0, api, grad, rho < 0, gc)
        mon.sample({"body": label, "points": len(b.P), "station_kind": k, "G": G, "reference": g * c, "tolerance": tol})
        if not err <= tol:
            mon.violate(
                f"gravity differs from the reference: |error| {err:.3g} mGal > {tol:.3g}",
                body=label, points=b.P, station=s, kind=k, density=rho, Gc=gc, gradient=grad, api=api, G=G, reference=g * c,
            )


def hostile_points(rng, P):
    """same body: repeated and interior points, other dtype or memory layout"""
    how = str(rng.choice(["plain", "repeat", "interior", "fortran", "strided", "readonly", "float32", "int"]))
    if how == "repeat":
        P = np.r_[P, P[rng.integers(len(P), size=2)]]
    elif how == "interior":
        w = rng.dirichlet(np.ones(len(P)), size=2)
        P = np.r_[P, 0.5 * (w @ P) + 0.5 * P.mean(0)]
    elif how == "fortran":
        P = np.asfortranarray(P)
    elif how == "strided":
        Q = np.full((2 * len(P), 5), np.nan)
        Q[::2, 1:4] = P
        P = Q[::2, 1:4]
    elif how == "readonly":
        P = P.copy()
        P.flags.writeable = False
    elif how == "float32":
        Q = P.astype(np.float32)
        if np.ptp(P, axis=0).min() > 1e-3 * np.abs(P).max():
            P = Q
        else:
            how = "plain"
    elif how == "int":
        Q = np.round(P * (8 / max(np.ptp(P, axis=0).max(), 1e-300)))
        if np.linalg.matrix_rank(Q - Q[0]) == 3 and np.abs(Q).max() < 1e6:
            P = Q.astype(rng.choice([np.int64, np.int32, np.int16]) if np.abs(Q).max() < 3e4 else np.int64)
        else:
            how = "plain"
    return P, how


def case(family, i, rng, mon):
    if family == "reference":
        dev, n = refmodel.selftest(rng)
        mon.event("reference validated", n)
        if dev > 1e-9:
            raise RuntimeError(f"reference model deviates from quadrature: {dev}")
        return
    rho, gc = gen.physics(rng)
    if family == "matrix":
        kind = gen.BODY_KINDS[i % len(gen.BODY_KINDS)]
        where = gen.PLACES[(i // len(gen.BODY_KINDS)) % len(gen.PLACES)]
        P, kind, where = gen.body_points(rng, kind, where)
        kinds = list(gen.STATION_KINDS)
        how = "plain"
    elif family == "big":
        kind, where, how = "sphere", "origin", "plain"
        n = int(rng.integers(80, 250)) if i else 640
        P = rng.normal(size=(n, 3))
        P = P / np.linalg.norm(P, axis=1)[:, None] * 10 ** rng.uniform(-1, 3) + rng.normal(size=3)
        kinds = list(rng.choice(gen.STATION_KINDS, 6))
    elif family == "extreme":
        # simple bodies, extreme sizes and offsets, exact decimal positions
        kind = str(rng.choice(["cube", "tetra", "inttetra", "octa", "roof"]))
        P = gen.shape(rng, kind) * float(10.0 ** rng.integers(-9, 10))
        where, how = "pow10", "plain"
        kinds = list(rng.choice(gen.STATION_KINDS, 8))
    elif family == "thin":
        kind = str(rng.choice(gen.BODY_KINDS))
        P = gen.shape(rng, kind)
        f = np.array([1.0, rng.choice([1.0, 10 ** rng.uniform(-6, 0)]), 10 ** rng.uniform(-7, -2)])[rng.permutation(3)]
        P = (P - P.mean(0)) * f * 10 ** rng.uniform(-3, 4)
        if rng.random() < 0.5:
            P = P @ gen.rotation(rng).T
        where, how = "thin", "plain"
        kinds = list(rng.choice(gen.STATION_KINDS, 6))
    else:
        P, kind, where = gen.body_points(rng)
        P, how = hostile_points(rng, P)
        kinds = list(rng.choice(gen.STATION_KINDS, 6))
    b = refmodel.Body(P)
    p = grav.polyhedron(P)
    S = np.array([gen.station(rng, b, k) for k in kinds])
    if how == "int" and rng.random() < 0.5:
        S = np.round(S).astype(np.int64)
    elif how == "float32" and rng.random() < 0.5:
        S = S.astype(np.float32)
    mon.event(f"input {how}")
    compare(mon, b, p, kinds, S, rho, gc, rng, f"{kind}/{where}/{how}")
