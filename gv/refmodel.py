"""Independent reference model of the gravity field of a homogeneous convex body.

Written from Werner & Scheeres (1996) (edge/face dyads) and Van Oosterom & Strackee
(1983) (solid angle), i.e. not from the formulas in geec (Singh & Guptasarma, 2001), and
evaluated in extended precision.  With the field comes a forward error bound of a
double-precision surface-integral evaluation, which the monitors use as tolerance.
"""

import numpy as np
from scipy.spatial import ConvexHull, QhullError

LD = np.longdouble
EPS = float(np.finfo(float).eps)


class Body:
    """Triangulated convex hull, oriented by Qhull's own outward facet equations."""

    def __init__(self, points):
        P = np.array(points, dtype=np.float64)
        self.P = P
        h = ConvexHull(P)
        tri = []
        for s, eq in zip(h.simplices, h.equations):
            a, b, c = P[s].astype(LD)
            n = np.cross(b - a, c - a)
            s = [int(x) for x in s]
            if float(np.dot(n, eq[:3].astype(LD))) < 0:
                s = [s[0], s[2], s[1]]
            tri.append(s)
        self.tri = np.array(tri)
        self.vertices = np.array(sorted(set(self.tri.ravel().tolist())))
        self.volume = float(h.volume)
        self.area = float(h.area)
        self.eq = h.equations
        self.centroid = P[h.vertices].mean(axis=0)
        self.size = float(np.ptp(P[h.vertices], axis=0).max())
        A, B, C = (P[self.tri[:, i]].astype(LD) for i in range(3))
        n = np.cross(B - A, C - A)
        dbl = np.sqrt((n * n).sum(-1))
        self.n = n / dbl[:, None]
        lmax2 = np.max([((X - Y) ** 2).sum(-1) for X, Y in ((A, B), (B, C), (C, A))], axis=0)
        self.kappa = lmax2 / dbl
        self.ABC = np.stack([A, B, C], axis=1)  # (F,3,3)
        self.maxabs = float(np.abs(P).max())

    def inside_depth(self, S):
        """> 0 inside (distance to the nearest facet plane), < 0 outside"""
        S = np.atleast_2d(S).astype(LD)
        d = (self.ABC[None, :, 0, :] - S[:, None, :])
        d = (d * self.n[None]).sum(-1)
        return d.min(axis=1).astype(float)

    def surface_distance(self, S):
        """distance of each station to the surface (exact point-triangle distance)"""
        S = np.atleast_2d(S).astype(LD)
        return np.array([_dist_tri(s, self.ABC, self.n) for s in S])

    def edge_distance(self, S):
        S = np.atleast_2d(S).astype(LD)
        out = []
        for s in S:
            best = None
            for i in range(3):
                a, b = self.ABC[:, i], self.ABC[:, (i + 1) % 3]
                ab = b - a
                t = np.clip(((s - a) * ab).sum(-1) / (ab * ab).sum(-1), 0, 1)
                q = a + t[:, None] * ab - s
                m = np.sqrt((q * q).sum(-1)).min()
                best = m if best is None else min(best, m)
            out.append(float(best))
        return np.array(out)


def _dist_tri(s, ABC, n):
    d = ((s - ABC[:, 0]) * n).sum(-1)
    q = s - d[:, None] * n
    inside = np.ones(len(ABC), bool)
    dseg = np.full(len(ABC), np.inf, dtype=LD)
    for i in range(3):
        a, b = ABC[:, i], ABC[:, (i + 1) % 3]
        ab = b - a
        inside &= ((np.cross(ab, q - a)) * n).sum(-1) >= 0
        t = np.clip(((s - a) * ab).sum(-1) / (ab * ab).sum(-1), 0, 1)
        w = a + t[:, None] * ab - s
        dseg = np.minimum(dseg, np.sqrt((w * w).sum(-1)))
    return float(np.where(inside, np.abs(d), dseg).min())


class Field:
    """reference values for unit density*Gc, SI (multiply by rho*Gc*1e5, resp. 1e9)"""

    __slots__ = ("g", "T", "gb", "Tb")


def field(body, S, chunk=64):
    S = np.atleast_2d(np.asarray(S))
    gs, Ts, gbs, Tbs = [], [], [], []
    for k in range(0, len(S), chunk):
        a = _field(body, S[k : k + chunk])
        gs.append(a[0]), Ts.append(a[1]), gbs.append(a[2]), Tbs.append(a[3])
    f = Field()
    f.g, f.T = np.concatenate(gs), np.concatenate(Ts)
    f.gb, f.Tb = np.concatenate(gbs), np.concatenate(Tbs)
    return f


def _field(body, S):
    S = S.astype(LD)
    R = body.ABC[None] - S[:, None, None, :]  # (S,F,3,3)
    r = np.sqrt((R * R).sum(-1))  # (S,F,3)
    n = body.n[None]  # (1,F,3)
    A, B, C = R[:, :, 0], R[:, :, 1], R[:, :, 2]
    ra, rb, rc = r[..., 0], r[..., 1], r[..., 2]
    num = (A * np.cross(B, C)).sum(-1)
    den = ra * rb * rc + ra * (B * C).sum(-1) + rb * (C * A).sum(-1) + rc * (A * B).sum(-1)
    om = 2 * np.arctan2(num, den)
    d = (A * n).sum(-1)
    om = np.where(d == 0, 0, om)
    g = n * (d * om)[..., None]
    T = -np.einsum("sfi,sfj->sfij", np.broadcast_to(n, A.shape), n * om[..., None])
    m = np.maximum(body.maxabs, np.abs(S).max(-1))[:, None].astype(LD)  # (S,1)
    rmax = r.max(-1)
    kap = body.kappa[None]
    evec = np.full(om.shape, 8 * EPS, dtype=LD)
    dterm = np.zeros(om.shape, dtype=LD)
    pq = np.zeros(A.shape, dtype=LD)
    N = []
    hmin = np.full(om.shape, np.inf, dtype=LD)
    for i in range(3):
        j = (i + 1) % 3
        X, Y, rx, ry = R[:, :, i], R[:, :, j], r[..., i], r[..., j]
        e = Y - X
        le = np.sqrt((e * e).sum(-1))
        cr = np.cross(X, Y)
        c2 = (cr * cr).sum(-1)
        dot = (X * Y).sum(-1)
        u = rx + ry + le
        # r1+r2-l without cancellation
        w = np.where(dot < 0, c2 / np.where(dot < 0, rx * ry - dot, 1), rx * ry + dot)
        v = 2 * w / u
        v = np.maximum(v, u * LD(1e-38))
        L = np.log(u / v)
        ne = np.cross(e / le[..., None], n)
        h = (ne * X).sum(-1)  # signed in-plane distance to the edge line
        g -= n * (h * L)[..., None]
        T += np.einsum("sfi,sfj->sfij", np.broadcast_to(n, ne.shape), ne) * L[..., None, None]
        pq += (e / le[..., None]) * L[..., None]
        uv = u / v
        dl = EPS * (4 + L + np.minimum(uv, 45 / EPS))
        evec += np.minimum(dl, 45)
        D = X / np.maximum(rx, LD(1e-300))[..., None] + Y / np.maximum(ry, LD(1e-300))[..., None]
        D = np.sqrt((D * D).sum(-1))
        dterm += EPS * (D * np.minimum(uv, 2 / EPS) + 4) / v
        cn = np.sqrt(c2)
        # distance to the edge (segment)
        tt = np.clip(-(X * e).sum(-1) / (le * le), 0, 1)
        q = X + tt[..., None] * e
        hmin = np.minimum(hmin, np.sqrt((q * q).sum(-1)))
        N.append((cr, cn))
    # accuracy of the angles between planes through the station (arc cosine of a rounded
    # cosine), and of their derivative (never more than ad/hs in itself)
    hs = np.maximum(hmin, LD(1e-300))
    ad = np.abs(d)
    ac = np.zeros(om.shape, dtype=LD)
    dang = np.zeros(om.shape, dtype=LD)
    for i in range(3):
        (c1, n1), (c2_, n2) = N[i], N[(i + 1) % 3]
        x = np.cross(c1, c2_)
        s = np.sqrt((x * x).sum(-1)) / np.maximum(n1 * n2, LD(1e-300))
        s = np.clip(s, LD(1e-300), 1)
        ac += np.minimum(4e-8, 4 * EPS / s)
        dang += np.minimum(4e-8, 8 * EPS / s) + np.minimum(2.0, 8 * EPS * rmax / hs)
    evec = evec + ac
    V = np.abs(om) + np.sqrt((pq * pq).sum(-1))
    band = ad < 40 * EPS * np.maximum(m, kap * rmax)
    gb = ad * evec + 4 * EPS * kap * (rmax + ad) * (V + evec) + np.where(band, 40 * EPS * m * np.abs(om), 0)
    nearline = np.minimum(2 * np.pi, 8 * EPS * m / hs + 8 * EPS * rmax * m / (hs * hs))
    Tb = evec + 4 * EPS * kap * V * (1 + rmax / hs) + np.where(band, np.abs(om) + nearline, 0)
    Tb += np.minimum(ad * dterm, 1e3) + dang
    gb = gb.sum(-1) + EPS * m[:, 0] * 8
    Tb = Tb.sum(-1)
    return g.sum(1), T.sum(1), gb.astype(float), Tb.astype(float)


# --- second, formula-free oracle: volume quadrature ------------------------------------
def quadrature(body, S, order=12):
    """field by Gauss-Legendre quadrature over tetrahedra (centroid, face)"""
    x, w = np.polynomial.legendre.leggauss(order)
    x, w = (x + 1) / 2, w / 2
    a, b, c = np.meshgrid(x, x, x, indexing="ij")
    wa, wb, wc = np.meshgrid(w, w, w, indexing="ij")
    # Duffy map of the unit cube on the unit tetrahedron
    l1 = a
    l2 = (1 - a) * b
    l3 = (1 - a) * (1 - b) * c
    W = (wa * wb * wc * (1 - a) ** 2 * (1 - b)).ravel()
    l1, l2, l3 = l1.ravel(), l2.ravel(), l3.ravel()
    S = np.atleast_2d(S).astype(float)
    g = np.zeros((len(S), 3))
    T = np.zeros((len(S), 3, 3))
    O = body.centroid
    for t in body.tri:
        A, B, C = body.P[t]
        J = abs(np.dot(A - O, np.cross(B - O, C - O)))
        q = O + np.outer(l1, A - O) + np.outer(l2, B - O) + np.outer(l3, C - O)
        for k, s in enumerate(S):
            r = q - s
            d2 = (r * r).sum(1)
            d = np.sqrt(d2)
            g[k] += J * ((W / (d2 * d)) @ r)
            T[k] += J * (3 * np.einsum("q,qi,qj->ij", W / (d2 * d2 * d), r, r) - np.eye(3) * (W / (d2 * d)).sum())
    return g, T


def selftest(rng):
    """the surface-integral reference against the volume quadrature; returns max deviation"""
    worst = 0.0
    n = 0
    for _ in range(4):
        P = rng.normal(size=(6, 3))
        b = Body(P)
        u = rng.normal(size=(4, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        S = b.centroid + u * rng.uniform(6, 12, size=(4, 1))
        f = field(b, S)
        g, T = quadrature(b, S, 10)
        worst = max(worst, float(np.abs(f.g - g).max() / np.abs(g).max()), float(np.abs(f.T - T).max() / np.abs(T).max()))
        n += len(S)
    # inside: Poisson, and derivative of g
    P = rng.normal(size=(9, 3))
    b = Body(P)
    s = b.centroid[None]
    f = field(b, s)
    worst = max(worst, abs(float(np.trace(f.T[0])) / (-4 * np.pi) - 1))
    for j in range(3):
        h = 1e-5
        e = np.zeros(3)
        e[j] = h
        df = (field(b, s + e).g - field(b, s - e).g) / (2 * h)
        dev = float(np.abs(df[0] - f.T[0][:, j]).max())
        worst = max(worst, dev / 1e3)
        n += 1
    return worst, n
