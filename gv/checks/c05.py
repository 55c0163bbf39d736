"""C05 a body's surface is the closed, outward-oriented convex hull"""

import collections
from fractions import Fraction

import numpy as np

from gv import gen, grav, refmodel
from gv.checks import c01

LEVEL = "exploration"
RULE = (
    "hull: point sets of 17 shapes x 7 placements, full and partial lattices, repeated, interior, coplanar and nearly coplanar points, thin "
    "(thickness down to 1e-9 of the size), a few points with one almost on an edge, face or corner, of up to 1100 points and far from the origin; the faces exposed by the body are checked geometrically (corners are given points, unit outward normals, "
    "counterclockwise order, edges around the face, every directed edge once and its reverse once, Euler characteristic 2, all points on the "
    "inner side of every face, enclosed volume). refuse: point sets of dimension < 3 and non-arrays. Distinct and non-trivial by (kind, number of "
    "points, number of faces, number of corners) of sets that span a volume, and by kind of refused input."
)
ASSUMPTIONS = ["a set is taken to span no volume only if it does so exactly (integer coordinates, or fewer than four distinct points)"]
REQUIRED = ["faces checked", "edges checked", "volume compared", "refused", "coplanar points", "repeated points", "thin body", "sliver body"]
C = 400.0


def setup(tier):
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("hull", 2000, 10), ("lattice", 800, 10), ("near", 500, 10), ("thin", 400, 10), ("sliver", 1600, 40), ("big", 26, 1), ("refuse", 400, 20)]
    return [("hull", 40000, 40), ("lattice", 20000, 40), ("near", 15000, 40), ("thin", 12000, 40), ("sliver", 60000, 100), ("big", 400, 2), ("refuse", 4000, 50)]


def volume(triangles):
    """volume enclosed by a closed surface, in rational arithmetic"""
    v = Fraction(0)
    for t in triangles:
        (a, b, c), (d, e, f), (g, h, i) = [[Fraction(float(x)) for x in y] for y in t]
        v += a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    return abs(float(v / 6))


def inspect(mon, P, label):
    p = grav.polyhedron(P)
    Q = np.array(P, dtype=float)
    L = Q.astype(np.longdouble)
    m = float(np.abs(Q).max())
    size = float(np.ptp(Q, axis=0).max())
    w = dict(points=Q, label=label)
    given = {tuple(x) for x in Q.tolist()}
    directed = collections.Counter()
    corners = set()
    area = np.longdouble(0)
    for k, F in enumerate(p.faces):
        X = np.array(F.points, dtype=float)
        mon.event("faces checked")
        if X.shape != (3, 3) or any(tuple(x) not in given for x in X.tolist()):
            return mon.violate(f"face {k} is not a triangle of given points", face=X, **w)
        if not np.array_equal(Q[np.asarray(F.simplex, dtype=int)], X):
            return mon.violate(f"face {k}: indices and corners disagree", face=X, simplex=list(F.simplex), **w)
        un = np.asarray(F.un, dtype=np.longdouble)
        A, B, D = X.astype(np.longdouble)
        n = np.cross(B - A, D - A)
        dbl = np.sqrt((n * n).sum())
        l2 = max(((A - B) ** 2).sum(), ((B - D) ** 2).sum(), ((D - A) ** 2).sum())
        if not dbl > 0:
            return mon.violate(f"face {k} is degenerate", face=X, **w)
        kappa = float(l2 / dbl)
        if not abs(float((un * un).sum()) - 1) < 1e-12:
            return mon.violate(f"face {k}: normal is not a unit vector", face=X, un=un, **w)
        if kappa < 1e10:
            if not float((n * un).sum() / dbl) > 1 - C * (grav.EPS * kappa) ** 2 - 1e-12:
                return mon.violate(f"face {k}: normal is not that of the corners in counterclockwise order", face=X, un=un, **w)
            h = float(((L - A) @ un).max())
            # Qhull merges facets within some rounding errors of the coordinates and splits the
            # result in triangles: a thin or small one may tilt by that over its height
            tol = C * grav.EPS * m * (kappa + float(size * np.sqrt(l2) / dbl))
            mon.event(f"outside ratio decade {int(np.clip(np.floor(np.log10(max(h,1e-300)/tol)),-9,9))}")
            if not h <= tol:
                return mon.violate(f"face {k}: a point lies outside ({h:.3g} > {tol:.3g}), normal is not outward or surface not convex", face=X, un=un, **w)
        else:
            mon.event("sliver face (normal not judged)")
        pairs = [(tuple(X[i].tolist()), tuple(X[(i + 1) % 3].tolist())) for i in range(3)]
        edges = []
        for e in F.edges:
            a, z = np.asarray(e.start, float), np.asarray(e.end, float)
            edges.append((tuple(a.tolist()), tuple(z.tolist())))
            v = np.asarray(e.vector, float)
            if not np.allclose(v, z - a, rtol=0, atol=4 * grav.EPS * m) or not abs(float(e.length) - float(np.sqrt(((z - a) ** 2).sum()))) <= 1e-12 * float(e.length):
                return mon.violate(f"face {k}: edge vector or length wrong", face=X, **w)
            mon.event("edges checked")
        if sorted(edges) != sorted(pairs) or any(edges[i][1] != edges[(i + 1) % 3][0] for i in range(len(edges))):
            return mon.violate(f"face {k}: edges do not run around the face in counterclockwise order", face=X, edges=edges, **w)
        directed.update(pairs)
        corners.update(x for q in pairs for x in q)
        area += dbl / 2
    if any(v != 1 for v in directed.values()) or any((b, a) not in directed for a, b in directed):
        return mon.violate("surface is not closed: an edge is not used once in each direction", **w)
    nF, nE, nV = len(p.faces), len(directed) // 2, len(corners)
    if nV - nE + nF != 2:
        return mon.violate(f"Euler characteristic is {nV - nE + nF}", **w)
    vol = volume([f.points for f in p.faces])
    b = refmodel.Body(Q)
    want = volume(Q[b.tri])
    tol = float(area) * C * grav.EPS * m + 1e-11 * want
    mon.event("volume compared")
    if not (abs(vol - want) <= tol or abs(vol - b.volume) <= tol):
        return mon.violate(f"enclosed volume {vol:.17g} is not that of the hull {want:.17g}", **w)
    mon.evaluated(label, len(Q), nF, nV)
    mon.sample({"kind": label, "points": len(Q), "faces": nF, "edges": nE, "corners": nV, "volume": vol})


def lattice_points(rng):
    k = rng.integers(2, 5, size=3)
    g = np.stack(np.meshgrid(*[np.arange(x) for x in k], indexing="ij"), -1).reshape(-1, 3).astype(float)
    how = str(rng.choice(["full", "part", "shear", "rot", "scale", "sphere", "dup"]))
    if how == "part":
        while True:
            q = g[rng.random(len(g)) < 0.6]
            if len(q) > 3 and np.linalg.matrix_rank(q - q[0]) == 3:
                g = q
                break
    elif how == "shear":
        M = rng.integers(-2, 3, size=(3, 3))
        if abs(round(np.linalg.det(M))) > 0:
            g = g @ M.T
    elif how == "rot":
        g = g @ gen.rotation(rng).T
    elif how == "scale":
        g = g * 10 ** rng.uniform(-6, 6, size=3).clip(-2, 2) * 10 ** rng.uniform(-4, 4)
    elif how == "sphere":
        g = np.array([p for p in np.stack(np.meshgrid(*[np.arange(-3, 4)] * 3, indexing="ij"), -1).reshape(-1, 3) if (p * p).sum() in (9, 6, 5)], float)
    elif how == "dup":
        g = np.r_[g, g, g[:3]]
    if rng.random() < 0.5:
        g = g + rng.integers(-10, 10, size=3)
    return g[rng.permutation(len(g))], how


def flat(rng):
    """point sets without volume (exactly), and things that are not arrays"""
    how = str(rng.choice(["plane", "line", "point", "few", "empty", "axis", "list", "tuple", "2d", "none", "dup3", "frame", "text", "scalar", "like", "view", "records", "iter"]))
    n = int(rng.integers(4, 12))
    a, b, o = rng.integers(-5, 6, size=(3, 3)).astype(float)
    c = rng.integers(-6, 7, size=(n, 2)).astype(float)
    if how == "plane":
        P = o + c[:, :1] * a + c[:, 1:] * b
    elif how == "line":
        P = o + c[:, :1] * a
    elif how == "point":
        P = np.repeat(o[None], n, axis=0)
    elif how == "few":
        P = rng.normal(size=(int(rng.integers(1, 4)), 3))
    elif how == "dup3":
        P = np.repeat(rng.integers(-9, 10, size=(3, 3)).astype(float), 3, axis=0)
    elif how == "empty":
        P = np.empty((0, 3))
    elif how == "axis":
        P = rng.normal(size=(n, 3))
        P[:, int(rng.integers(3))] = float(rng.integers(-3, 4))
    elif how == "list":
        P = gen.CUBE.tolist()
    elif how == "tuple":
        P = tuple(map(tuple, gen.CUBE))
    elif how == "2d":
        P = rng.normal(size=(n, 2))
    elif how == "none":
        P = None
    elif how == "frame":
        import pandas as pd

        P = pd.DataFrame(gen.CUBE)
    elif how == "scalar":
        P = np.float64(3.5)
    elif how == "like":
        P = Like()
    elif how == "view":
        P = memoryview(gen.CUBE.copy())
    elif how == "records":
        P = [np.array(x) for x in gen.CUBE]
    elif how == "iter":
        P = iter(gen.CUBE)
    else:
        P = "points"
    return P, how


class Like:
    """not an array, but can be turned into one"""

    def __array__(self, dtype=None, copy=None):
        return np.array(gen.CUBE, dtype=dtype)

    def __len__(self):
        return 8

    def __getitem__(self, k):
        return gen.CUBE[k]


def case(family, i, rng, mon):
    if family == "refuse":
        P, how = flat(rng)
        try:
            p = grav.polyhedron(P)
        except Exception as exc:
            mon.event("refused")
            mon.evaluated("refuse", how, type(exc).__name__)
        else:
            mon.violate(f"points without volume or not an array are accepted ({how}, {len(p.faces)} faces)", points=P, how=how)
        return
    if family == "hull":
        P, kind, where = gen.body_points(rng)
        P, how = c01.hostile_points(rng, P)
        if how == "repeat":
            mon.event("repeated points")
        label = f"{kind}/{where}/{how}"
    elif family == "lattice":
        P, how = lattice_points(rng)
        mon.event("coplanar points")
        if how == "dup":
            mon.event("repeated points")
        label = f"lattice {how}"
    elif family == "near":
        P, how = lattice_points(rng)
        P = P + rng.normal(size=P.shape) * 10.0 ** rng.integers(-17, -4)
        if rng.random() < 0.4:
            P = gen.place(rng, P, str(rng.choice(["ecef", "scaled", "offset"])))
        label = f"near {how}"
    elif family == "thin":
        # flat or needle-like, but spanning a volume far above the rounding of the coordinates
        kind = str(rng.choice(gen.BODY_KINDS))
        P = gen.shape(rng, kind)
        f = np.array([1.0, rng.choice([1.0, 10 ** rng.uniform(-9, 0)]), 10 ** rng.uniform(-9, -2)])[rng.permutation(3)]
        P = (P - P.mean(0)) * f * 10 ** rng.uniform(-6, 6)
        if rng.random() < 0.5:
            P = P @ gen.rotation(rng).T
        mon.event("thin body")
        label = f"thin {kind}"
    elif family == "sliver":
        # a few points, one of them almost on an edge, a face or another point: some faces are all but degenerate
        P = rng.integers(-6, 7, size=(int(rng.integers(4, 7)), 3)).astype(float) if rng.random() < 0.5 else rng.normal(size=(int(rng.integers(4, 7)), 3))
        if np.linalg.matrix_rank(P - P[0]) < 3:
            return
        try:
            b = refmodel.Body(P)
        except Exception:
            return
        t = P[b.tri[int(rng.integers(len(b.tri)))]]
        x = rng.dirichlet(np.ones(3)) if rng.random() < 0.4 else np.r_[rng.dirichlet(np.ones(2)), 0] if rng.random() < 0.7 else np.eye(3)[0]
        q = x @ t + rng.normal(size=3) * 10.0 ** rng.integers(-17, -6) * rng.integers(0, 2)
        P = np.r_[P, q[None]][rng.permutation(len(P) + 1)]
        if rng.random() < 0.3:
            P = gen.place(rng, P, str(rng.choice(["ecef", "scaled", "offset"])))
        mon.event("sliver body")
        label = f"sliver {len(P)}"
    else:
        n = int(rng.integers(60, 300)) if i > 1 else 700 + 400 * i
        P = rng.normal(size=(n, 3))
        if i % 2:
            P /= np.linalg.norm(P, axis=1)[:, None]
        P = gen.place(rng, P, str(rng.choice(gen.PLACES)))
        label = "big"
    inspect(mon, P, label)
