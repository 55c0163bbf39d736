"""C06 results follow the body under motion, mirroring and rescaling"""

import itertools

import numpy as np

from gv import gen, grav, refmodel

LEVEL = "exploration"
RULE = (
    "A case evaluates one body (17 shapes x 7 placements) at stations of 20 kinds before and after a transformation and compares the two "
    "answers of the code with each other. exact: the 48 symmetries of the axes, whole-number translations and powers of two up to 2^150 (no rounding of "
    "the coordinates); general: random rotations, reflections, translations up to 1e7 and factors 1e-9..1e9, and compositions of three; "
    "same: reordered, repeated and interior points, other number types and memory layouts. The tolerance is 10x the sum of the forward error "
    "bounds of both evaluations, plus the effect of moving the corners by the rounding error of the coordinates. Distinct and non-trivial by (body kind, "
    "placement, station kind, transformation class), with a non-zero field."
)
ASSUMPTIONS = ["the bound of the reference model covers the rounding errors of each evaluation (the verdict compares the code with itself)"]
REQUIRED = ["exact compared", "general compared", "same compared", "tensor compared", "mirrored", "scaled", "translated", "rotated", "station of another type", "points of another type"]

AXES = [np.diag(s) @ np.eye(3)[list(p)] for p in itertools.permutations(range(3)) for s in itertools.product((1.0, -1.0), repeat=3)]


def setup(tier):
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("exact", 700, 5), ("general", 700, 5), ("same", 500, 5)]
    return [("exact", 20000, 20), ("general", 25000, 20), ("same", 12000, 20)]


def isometry(rng, mon):
    R = gen.rotation(rng)
    if rng.random() < 0.4:  # Householder reflection
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        R = R @ (np.eye(3) - 2 * np.outer(u, u))
    return R


def transform_exact(rng, P, mon):
    """(f, R, factor, name): f maps coordinates without rounding error (checked)"""
    R, t, c = np.eye(3), np.zeros(3), 1.0
    name = []
    if rng.random() < 0.7:
        R = AXES[int(rng.integers(1, 48))]
        name.append("mirror" if np.linalg.det(R) < 0 else "rotate")
        mon.event("mirrored" if np.linalg.det(R) < 0 else "rotated")
    if rng.random() < 0.5:
        c = 2.0 ** int(rng.integers(-40, 41) if rng.random() < 0.7 else rng.integers(-150, 151))
        name.append("scale")
        mon.event("scaled")
    if rng.random() < 0.5 or not name:
        t = rng.integers(-1000, 1001, size=3).astype(float)
        name.append("translate")
    return (lambda X: (X @ R.T + t) * c), (lambda Y: (Y / c - t) @ R), R, c, "+".join(name)


def transform_general(rng, b, mon):
    R, t, c = np.eye(3), np.zeros(3), 1.0
    name = []
    for _ in range(int(rng.integers(1, 4))):
        k = str(rng.choice(["rotate", "tilt", "mirror", "translate", "scale"]))
        name.append(k)
        if k in ("rotate", "tilt", "mirror"):
            Q = gen.tilt(rng) if k == "tilt" else gen.rotation(rng)
            if k == "mirror":
                u = rng.normal(size=3)
                u /= np.linalg.norm(u)
                Q = np.eye(3) - 2 * np.outer(u, u)
            R, t = Q @ R, Q @ t
            mon.event("mirrored" if k == "mirror" else "rotated")
        elif k == "translate":
            u = rng.normal(size=3)
            t = t + u * c * b.size * 10 ** rng.uniform(-1, 4)
            mon.event("translated")
        else:
            f = float(10 ** rng.uniform(-9, 9)) if rng.random() < 0.7 else float(10.0 ** rng.integers(-9, 10))
            c, t = c * f, t * f
            mon.event("scaled")
    return (lambda X: (c * (X.astype(np.longdouble) @ R.T.astype(np.longdouble)) + t).astype(float)), R, c, "+".join(sorted(set(name)))


def body(rng):
    P, kind, where = gen.body_points(rng)
    return P, kind, where


def answers(p, s, rho, gc, rng):
    G, T = grav.evaluate(p, s, rho, gc, True, str(rng.choice(["station", "polyhedron"])))
    return grav.vec(G), grav.mat(T)


def compare(mon, family, label, k, b1, s1, a1, b2, s2, a2, R, c, rho, gc):
    """answer a2 for (b2, s2) = c*(R(b1, s1)+t) against the transformed answer a1"""
    f1, f2 = refmodel.field(b1, s1), refmodel.field(b2, s2)
    u = abs(rho * gc)
    R = R.astype(np.longdouble)
    G = c * (R @ a1[0])
    T = R @ a1[1] @ R.T
    gb = c * f1.gb[0] + f2.gb[0]
    Tb = f1.Tb[0] + f2.Tb[0]
    d = float(b2.edge_distance(s2)[0])
    # corners moved by eps*m: rounding of the coordinates, or another triangulation of
    # nearly coplanar points
    m = max(b2.maxabs, float(np.abs(s2).max()))
    slip = 40 * grav.EPS * m * len(b2.tri) * float(min(b2.kappa.max(), 1e3))
    tolG = (grav.K * gb + slip * (1 + np.log(1 + b2.size / max(d, 1e-30 * b2.size)))) * u * grav.MGAL
    eg = float(np.abs(a2[0] - G).max())
    w = dict(points=b1.P, station=s1, moved=b2.P, moved_station=s2, density=rho, Gc=gc, kind=k, transformation=label, G=a2[0], expected=G)
    mon.event(f"{family} compared")
    if float(np.abs(f1.g).max()) > 0:
        mon.evaluated(family, label, k)
    if not eg <= tolG:
        mon.violate(f"gravity does not follow the body ({label}): {eg:.3g} > {tolG:.3g} mGal", **w)
    if grav.off_surface(b1, s1)[0][0] and grav.off_surface(b2, s2)[0][0]:
        sd = float(b2.surface_distance(s2)[0])
        tolT = (grav.K * Tb + slip * 100 / sd) * u * grav.EOTVOS
        et = float(np.abs(a2[1] - T).max())
        mon.event("tensor compared")
        if not et <= tolT:
            mon.violate(f"gradient does not follow the body ({label}): {et:.3g} > {tolT:.3g} E", T=a2[1], expected_T=T, **w)
    mon.sample({"transformation": label, "station_kind": k, "G": a2[0], "expected": G, "tolerance": tolG})


def case(family, i, rng, mon):
    rho, gc = gen.physics(rng)
    P, kind, where = body(rng)
    label = f"{kind}/{where}"
    if family == "exact":
        # coordinates on a grid fine enough for the shape and coarse enough to be exact
        P = np.round(P * 2.0**12 / 2.0 ** np.ceil(np.log2(np.abs(P).max()))) if where not in ("lattice",) else P
        if np.ptp(P, axis=0).min() == 0 or np.linalg.svd(P - P.mean(0), compute_uv=False)[-1] < 1:
            P = np.round(gen.shape(rng, "octa") * 4)
        try:
            b = refmodel.Body(P)
        except Exception:
            return
        f, back, R, c, name = transform_exact(rng, P, mon)
        if "translate" in name:
            mon.event("translated")
        kinds = [str(k) for k in rng.choice(gen.STATION_KINDS, 5)]
        S = np.array([gen.station(rng, b, k) for k in kinds])
        if rng.random() < 0.6:
            S = np.round(S * 2.0**20) / 2.0**20
        keep = [np.array_equal(back(f(s)), s) and np.array_equal(f(back(f(s))), f(s)) for s in S]
        Q = f(P)
        if not np.array_equal(back(Q), P):
            return
        b2 = refmodel.Body(Q)
        p1, p2 = grav.polyhedron(P), grav.polyhedron(Q)
        for k, s, ok in zip(kinds, S, keep):
            if ok:
                s2 = f(s)
                compare(mon, "exact", f"{label} {name}", k, b, s, answers(p1, s, rho, gc, rng), b2, s2, answers(p2, s2, rho, gc, rng), R, c, rho, gc)
    elif family == "general":
        b = refmodel.Body(P)
        f, R, c, name = transform_general(rng, b, mon)
        Q = f(P)
        # skip transformations that leave no digits for the shape of the body
        if np.abs(Q).max() > 1e7 * np.ptp(Q, axis=0).max():
            return
        try:
            b2 = refmodel.Body(Q)
        except Exception:
            return
        p1, p2 = grav.polyhedron(P), grav.polyhedron(Q)
        for k in rng.choice(gen.STATION_KINDS, 5):
            s = gen.station(rng, b, str(k))
            s2 = f(s)
            compare(mon, "general", f"{label} {name}", str(k), b, s, answers(p1, s, rho, gc, rng), b2, s2, answers(p2, s2, rho, gc, rng), R, c, rho, gc)
    else:
        kind_of = None
        if rng.random() < 0.35:
            P, kind_of = typed(rng, P)
            mon.event("points of another type")
        b = refmodel.Body(P)
        p1 = grav.polyhedron(P)
        Q, name = same(rng, P, b, kind_of)
        p2 = grav.polyhedron(Q)
        b2 = refmodel.Body(Q)
        for k in rng.choice(gen.STATION_KINDS, 4):
            s = gen.station(rng, b, str(k))
            s2 = s
            u = rng.random()
            if u < 0.4:
                # the same numbers in another type
                t = [np.float32, np.int64, np.int32, ">f8", np.int16, np.int8, np.uint8, np.uint32, ">i4"][int(rng.integers(9))]
                r = s if rng.random() < 0.5 else b.centroid + b.size * rng.normal(size=3)
                lo, hi = (np.iinfo(t).min, min(np.iinfo(t).max, 2**53)) if np.dtype(t).kind in "iu" else (-1e30, 1e30)
                if lo <= r.min() - 1 and r.max() + 1 <= hi:
                    s = np.round(r) if np.dtype(t).kind in "iu" else r.astype(t).astype(float)
                    s2 = s.astype(t)
                    mon.event("station of another type")
            elif u < 0.6:
                s2 = np.array([np.nan, *s, np.nan, np.nan, np.nan])[1:4] if rng.random() < 0.5 else np.repeat(s, 2)[::2]
            compare(mon, "same", f"{label} {name}", str(k), b, s, answers(p1, s, rho, gc, rng), b2, s2, answers(p2, s2, rho, gc, rng), np.eye(3), 1.0, rho, gc)


def typed(rng, P):
    """a body like P whose coordinates fill the range of a number type, as float64, and that type"""
    t = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.float32, np.float16, ">i2", ">f4"][int(rng.integers(11))]
    if np.dtype(t).kind == "f":
        with np.errstate(over="ignore"):
            Q = P.astype(t).astype(float)
    else:
        lo, hi = np.iinfo(t).min, np.iinfo(t).max
        hi = min(hi, 2**45)
        lo = max(lo, -(2**45))
        u = (P - P.min(0)) / np.ptp(P, axis=0).max()
        full = (hi - lo) * float(rng.choice([1.0, 0.9, 0.5, 0.01 if hi > 1e4 else 0.3]))
        Q = np.round(lo + u * full + (hi - lo - full) * rng.uniform(0, 1, 3))
        Q = np.clip(Q, lo, hi)
    V = Q - Q.mean(0)
    if not np.isfinite(Q).all() or np.linalg.svd(V, compute_uv=False)[-1] < 1e-3 * np.abs(Q).max():
        R = gen.box((100.0, 90.0, 80.0)) + rng.integers(0, 20, size=3)
        return (R, np.uint8) if np.dtype(t).kind != "f" else (R, np.float16)
    return Q, t


def same(rng, P, b, kind_of=None):
    Q = P
    name = []
    if rng.random() < 0.5:
        Q = Q[rng.permutation(len(Q))]
        name.append("order")
    if rng.random() < 0.4:
        Q = np.r_[Q, Q[rng.integers(len(Q), size=int(rng.integers(1, 6)))]]
        Q = Q[rng.permutation(len(Q))]
        name.append("repeat")
    if rng.random() < 0.4:
        V = P[b.vertices]
        w = rng.dirichlet(np.ones(len(V)), size=int(rng.integers(1, 6)))
        Q = np.r_[0.5 * (w @ V) + 0.5 * b.centroid, Q]
        Q = Q[rng.permutation(len(Q))]
        name.append("interior")
    if kind_of is not None:
        if np.array_equal(Q.astype(kind_of).astype(float), Q):
            return Q.astype(kind_of), "+".join(name + [np.dtype(kind_of).str])
    how = str(rng.choice(["plain", "fortran", "strided", "reversed", "readonly", "exactint", "float32", "longdouble", "bigendian"]))
    if how == "fortran":
        Q = np.asfortranarray(Q)
    elif how == "strided":
        Z = np.full((3 * len(Q), 7), np.nan)
        Z[::3, 1:7:2] = Q
        Q = Z[::3, 1:7:2]
    elif how == "reversed":
        Q = np.ascontiguousarray(Q[::-1])[::-1]
    elif how == "readonly":
        Q = Q.copy()
        Q.flags.writeable = False
    elif how == "exactint" and np.array_equal(np.round(Q), Q) and np.abs(Q).max() < 1e9:
        Q = Q.astype(rng.choice([np.int32, np.int64]))
    elif how == "float32" and np.array_equal(Q.astype(np.float32).astype(float), Q):
        Q = Q.astype(np.float32)
    elif how == "longdouble":
        Q = Q.astype(np.longdouble)
    elif how == "bigendian":
        Q = Q.astype(">f8")
    else:
        how = "plain"
    return Q, "+".join(name + [how])
