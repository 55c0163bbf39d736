"""C07 every station position gets a finite, continuous answer"""

import numpy as np

from gv import gen, grav, refmodel

LEVEL = "exploration"
RULE = (
    "A case takes one body (17 shapes x 7 placements) and walks through special positions computed from its own corners: every corner, points on edges "
    "(quarter points, exact and rounded), on faces, in face planes, on edge lines, intersections of planes, far and huge coordinates; at each it "
    "evaluates the position and neighbours displaced by single last bits along the axes and by 1e-16..1e-1 of the body's size along "
    "normals, edges and random directions. Monitored: exceptions, finite gravity, finite tensor off the edges, and |G(a)-G(b)| <= modulus of continuity of the "
    "field of that body (4pi + logarithmic edge terms) + rounding bounds, for each pair; hunt: a pair is halved repeatedly towards the largest change of the deviation from the reference, down to last bits. Distinct and non-trivial by (body kind, placement, kind of position, "
    "kind and decade of displacement, inside/outside)."
)
ASSUMPTIONS = ["the modulus of continuity uses only the number and length of edges; rounding bounds as in C01"]
REQUIRED = ["corner", "edge", "face", "plane", "line", "last bit", "displaced", "tensor finite", "pair compared", "far", "hunted"]


def setup(tier):
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("walk", 17 * 7 * 3, 3), ("axis", 150, 3), ("far", 100, 5), ("hunt", 17 * 7, 1)]
    return [("walk", 17 * 7 * 60, 5), ("axis", 6000, 10), ("far", 2000, 10), ("hunt", 17 * 7 * 40, 5)]


def specials(rng, b, n):
    out = []
    V = b.P[b.vertices]
    for v in V[rng.permutation(len(V))[:n]]:
        out.append(("corner", v.copy()))
    for _ in range(n):
        A, B, C = b.P[b.tri[int(rng.integers(len(b.tri)))]][rng.permutation(3)]
        f = float(rng.choice([0.5, 0.25, 0.75, 1 / 3, rng.uniform()]))
        out.append(("edge", A + f * (B - A) if rng.random() < 0.5 else (1 - f) * A + f * B))
        w = np.array([[1 / 3, 1 / 3, 1 / 3], [0.5, 0.25, 0.25], rng.dirichlet([1, 1, 1])][int(rng.integers(3))])
        out.append(("face", w @ np.array([A, B, C])))
        x, y = rng.choice([-2.0, -1.0, -0.5, 0.5, 1.0, 2.0, rng.normal()], size=2)
        out.append(("plane", A + x * (B - A) + y * (C - A)))
        t = float(rng.choice([-2, -1, -0.5, 1.5, 2, 3, 10, -10 ** rng.uniform(-3, 3)]))
        out.append(("line", A + t * (B - A)))
        # in two face planes at once
        D = b.P[b.vertices[int(rng.integers(len(b.vertices)))]]
        out.append(("mix", np.where(rng.random(3) < 0.5, A, D)))
        out.append(("mid", 0.5 * (A + D)))
    out.append(("centroid", b.centroid.copy()))
    out.append(("origin", np.zeros(3)))
    return out


def neighbours(rng, b, s, n):
    """positions at tiny and small distances from s"""
    out = []
    for _ in range(n):
        how = str(rng.choice(["bit", "bit", "normal", "edge", "random", "axis"]))
        q = s.copy()
        if how == "bit":
            ax = rng.random(3) < 0.5
            ax[int(rng.integers(3))] = True
            for j in np.flatnonzero(ax):
                d = float(rng.choice([-np.inf, np.inf]))
                for _ in range(int(rng.choice([1, 1, 1, 2, 3, 10]))):
                    q[j] = np.nextafter(q[j], d)
            if (np.abs(q[q != 0]) < 1e-300).any():  # subnormal numbers: also meant
                pass
        else:
            A, B, C = b.P[b.tri[int(rng.integers(len(b.tri)))]][rng.permutation(3)]
            if how == "normal":
                u = np.cross(B - A, C - A)
            elif how == "edge":
                u = B - A
            elif how == "axis":
                u = np.eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
            else:
                u = rng.normal(size=3)
            u = u / np.linalg.norm(u)
            q = q + u * b.size * 10 ** rng.uniform(-17, -1) * rng.choice([-1, 1])
        out.append((how, q))
    return out


def modulus(b, h):
    ne = len(b.tri) * 3 / 2
    return h * (8 * np.pi + ne * 4 * (1 + np.log1p(4 * b.size / max(h, 1e-30 * b.size))))


def hunt(rng, mon, b, ask, c, label, rho, gc):
    """look for a jump between two positions by halving their distance, always keeping the half in which the
    deviation from the reference changes most"""
    sp = specials(rng, b, 2)
    for j in rng.permutation(len(sp))[:6]:
        name, s = sp[j]
        if not float(np.linalg.norm(s - b.centroid)) < 1e3 * b.size:
            continue
        how, q = neighbours(rng, b, s, 8)[-1]
        if how == "bit":
            q = s + rng.normal(size=3) * b.size * 10 ** rng.uniform(-13, -2)
        ends = [s, q]
        if rng.random() < 0.5:
            ends[0] = s - (q - s)
        X = [(x, ask(x, f"{name}+hunt"), refmodel.field(b, x)) for x in ends]
        if X[0][1] is None or X[1][1] is None:
            return
        first = float(np.linalg.norm(ends[1] - ends[0]))
        for _ in range(60):
            (x0, G0, f0), (x1, G1, f1) = X
            x = 0.5 * (x0 + x1)
            if (x == x0).all() or (x == x1).all():
                break
            G, f = ask(x, f"{name}+hunt"), refmodel.field(b, x)
            if G is None:
                return
            mid = (x, G, f)
            u = np.longdouble(rho) * np.longdouble(gc) * grav.MGAL
            d0 = np.abs((G - f.g[0] * u) - (G0 - f0.g[0] * u)).max()
            d1 = np.abs((G - f.g[0] * u) - (G1 - f1.g[0] * u)).max()
            X = [X[0], mid] if d0 > d1 else [mid, X[1]]
            if d0 > d1 and d0 < grav.K * (f.gb[0] + f0.gb[0]) * c * grav.MGAL or d0 <= d1 and d1 < grav.K * (f.gb[0] + f1.gb[0]) * c * grav.MGAL:
                break  # nothing but rounding left
        (x0, G0, f0), (x1, G1, f1) = X
        h = float(np.sqrt(((x1.astype(np.longdouble) - x0) ** 2).sum()))
        tol = (modulus(b, h) + grav.K * (f0.gb[0] + f1.gb[0])) * c * grav.MGAL
        err = float(np.abs(G1 - G0).max())
        mon.event("pair compared")
        mon.event("hunted")
        mon.evaluated("hunt", label, name, how, grav.dist_class(first, b.size))
        if not err <= tol:
            mon.violate(f"gravity jumps by {err:.3g} mGal (> {tol:.3g}) between positions {h:.3g} m apart (hunt from {name}+{how})", points=b.P, a=x0, b=x1, Ga=G0, Gb=G1, density=rho, Gc=gc, body=label)


def case(family, i, rng, mon):
    rho, gc = gen.physics(rng)
    if family == "axis":
        # axis-aligned boxes of round decimal sizes and positions
        d = rng.choice([0.1, 0.2, 0.3, 0.7, 1.0, 2.0, 3.0, 10.0, 1000.0], size=3)
        P = gen.box(d, tuple(int(x) for x in rng.integers(2, 4, 3))) + rng.choice([0.0, 0.1, -0.3, 5.0, 100.1, 1e6], size=3)
        kind, where = "decimal box", "-"
    else:
        kind = gen.BODY_KINDS[i % len(gen.BODY_KINDS)]
        where = gen.PLACES[(i // len(gen.BODY_KINDS)) % len(gen.PLACES)]
        P, kind, where = gen.body_points(rng, kind, where)
    b = refmodel.Body(P)
    p = grav.polyhedron(P)
    c = abs(rho * gc)

    def ask(s, kind_s):
        grad = bool(rng.random() < 0.6)
        w = dict(points=P, station=s, density=rho, Gc=gc, gradient=grad, position=kind_s, body=f"{kind}/{where}")
        try:
            G, T = grav.evaluate(p, s.copy(), rho, gc, grad, str(rng.choice(["station", "polyhedron"])))
        except Exception as exc:
            mon.violate(f"evaluation raised {exc!r} at a special position ({kind_s})", **w)
            return None
        G = np.asarray(G, dtype=float).reshape(-1)
        if G.shape != (3,) or not np.isfinite(G).all():
            mon.violate(f"gravity is not finite at a special position ({kind_s})", G=G, **w)
            return None
        if grad and b.edge_distance(s)[0] > 1e-3 * grav.EPS * b.size:
            mon.event("tensor finite")
            if not np.isfinite(np.asarray(T, dtype=float)).all():
                mon.violate(f"gradient is not finite off the edges ({kind_s})", T=T, **w)
        return grav.vec(G)

    if family == "hunt":
        return hunt(rng, mon, b, ask, c, f"{kind}/{where}", rho, gc)
    if family == "far":
        kinds = []
        for _ in range(8):
            u = rng.normal(size=3)
            u /= np.linalg.norm(u)
            if rng.random() < 0.5:
                u = np.eye(3)[int(rng.integers(3))]
            r = 10 ** rng.uniform(1, 12)
            kinds.append(("far", b.centroid + u * b.size * r))
        kinds.append(("far", np.array([1e15, 0.0, 0.0])))
        kinds.append(("far", np.full(3, -1e12)))
        sp = kinds
    else:
        sp = specials(rng, b, 3)
        sp = [sp[j] for j in rng.permutation(len(sp))[:12]]
    for name, s in sp:
        mon.event(name)
        G0 = ask(s, name)
        f0 = refmodel.field(b, s)
        if G0 is None:
            continue
        near = float(np.linalg.norm(s - b.centroid)) < 1e4 * b.size
        ins = bool(b.inside_depth(s)[0] > 0)
        mon.evaluated(kind, where, name, ins)
        prev, fprev, sprev = G0, f0, s
        for how, q in neighbours(rng, b, s, 4):
            mon.event("last bit" if how == "bit" else "displaced")
            G = ask(q, f"{name}+{how}")
            if G is None:
                continue
            f = refmodel.field(b, q)
            # against the special position, and against the neighbour before
            # (farther than 1e4 sizes, the answer is rounding noise: finite is all that is asked)
            for Gr, fr, sr in ((G0, f0, s), (prev, fprev, sprev)) if near else ():
                h = float(np.sqrt(((q.astype(np.longdouble) - sr) ** 2).sum()))
                tol = (modulus(b, h) + grav.K * (f.gb[0] + fr.gb[0])) * c * grav.MGAL
                err = float(np.abs(G - Gr).max())
                mon.event("pair compared")
                if not err <= tol:
                    mon.violate(f"gravity jumps by {err:.3g} mGal (> {tol:.3g}) between positions {h:.3g} m apart ({name}+{how})", points=P, a=sr, b=q, Ga=Gr, Gb=G, density=rho, Gc=gc, body=f"{kind}/{where}")
            h = float(np.linalg.norm(q - s))
            mon.evaluated(kind, where, name, how, grav.dist_class(h, b.size), ins)
            prev, fprev, sprev = G, f, q
        mon.sample({"body": f"{kind}/{where}", "position": name, "station": s, "G": G0})
