"""Workload generators: bodies and stations, realistic and hostile."""

import numpy as np

from gv import refmodel


def rotation(rng):
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def tilt(rng):
    """rotation by a small angle"""
    t = 10 ** rng.uniform(-8, -1)
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    x, y, z = u if rng.random() < 0.6 else np.eye(3)[int(rng.integers(3))]
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


def box(dims, grid=(2, 2, 2)):
    ax = [np.linspace(0, d, k) for d, k in zip(dims, grid)]
    return np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, 3)


CUBE = np.array(
    [(-0.5, -0.5, 0.0), (0.5, -0.5, 0.0), (0.5, 0.5, 0.0), (-0.5, 0.5, 0.0),
     (-0.5, -0.5, -1.0), (0.5, -0.5, -1.0), (0.5, 0.5, -1.0), (-0.5, 0.5, -1.0)]
)

BODY_KINDS = (
    "cube", "tetra", "box", "rotbox", "cloud", "sphere", "lattice", "gridbox", "prism",
    "pyramid", "octa", "slab", "needle", "dem", "inttetra", "roof", "chip",
)
PLACES = ("origin", "offset", "scaled", "ecef", "tiny", "huge", "lattice")


def shape(rng, kind):
    """unit-size point set of the given kind"""
    if kind == "cube":
        return CUBE.copy()
    if kind == "tetra":
        while True:
            P = rng.normal(size=(4, 3))
            if abs(np.linalg.det(P[1:] - P[0])) > 0.3:
                return P
    if kind == "inttetra":
        while True:
            P = rng.integers(-6, 7, size=(4, 3)).astype(float)
            if abs(np.linalg.det(P[1:] - P[0])) > 5:
                return P
    if kind == "box":
        return box(10 ** rng.uniform(-0.7, 0.7, 3)) - rng.uniform(0, 1, 3)
    if kind == "rotbox":
        return (box(10 ** rng.uniform(-0.7, 0.7, 3)) - 0.5) @ rotation(rng).T
    if kind == "cloud":
        return rng.normal(size=(int(rng.integers(5, 25)), 3))
    if kind == "sphere":
        P = rng.normal(size=(int(rng.integers(8, 40)), 3))
        return P / np.linalg.norm(P, axis=1)[:, None]
    if kind == "lattice":
        while True:
            P = rng.integers(-3, 4, size=(int(rng.integers(6, 16)), 3)).astype(float)
            Q = P - P.mean(0)
            if np.linalg.svd(Q, compute_uv=False)[-1] > 1.5:
                return P
    if kind == "gridbox":
        P = box((1.0, 1.0, 1.0), tuple(int(x) for x in rng.integers(2, 5, 3)))
        return P @ rotation(rng).T if rng.random() < 0.5 else P
    if kind == "prism":
        k = int(rng.integers(3, 9))
        t = 2 * np.pi * np.arange(k) / k
        z = np.full(k, 0.5)
        a = np.c_[np.cos(t), np.sin(t), z]
        return np.r_[a, a * [1, 1, -1]]
    if kind == "pyramid":
        k = int(rng.integers(3, 9))
        t = 2 * np.pi * np.arange(k) / k + rng.uniform()
        return np.r_[np.c_[np.cos(t), np.sin(t), np.zeros(k)], [[rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5), rng.uniform(0.5, 2)]]]
    if kind == "octa":
        return np.r_[np.eye(3), -np.eye(3)] * rng.integers(1, 5, size=3)
    if kind == "slab":
        return box((1.0, rng.uniform(0.5, 1), 10 ** rng.uniform(-3, -1))) @ (rotation(rng).T if rng.random() < 0.5 else np.eye(3))
    if kind == "needle":
        return box((1.0, 10 ** rng.uniform(-2, -1), 10 ** rng.uniform(-2, -1))) @ (rotation(rng).T if rng.random() < 0.5 else np.eye(3))
    if kind == "dem":
        k = int(rng.integers(3, 6))
        x, y = np.meshgrid(np.linspace(0, 1, k), np.linspace(0, 1, k), indexing="ij")
        top = np.c_[x.ravel(), y.ravel(), 0.3 + rng.uniform(0, 0.1, k * k)]
        bot = np.c_[x.ravel(), y.ravel(), np.zeros(k * k)]
        return np.r_[top, bot]
    if kind == "chip":  # box with a corner cut off: very small next to large faces
        a = 10 ** rng.uniform(-5, -0.5, size=3)
        P = np.r_[box((1.0, 1.0, 1.0))[1:], np.diag(a)]
        return P @ rotation(rng).T if rng.random() < 0.5 else P
    if kind == "roof":
        return np.array([(0, 0, 0), (2, 0, 0), (2, 1, 0), (0, 1, 0), (0.5, 0.5, 0.7), (1.5, 0.5, 0.7)], float)
    raise ValueError(kind)


def place(rng, P, where):
    if where == "origin":
        return P
    if where == "offset":
        return P + rng.normal(size=3) * 10 ** rng.uniform(0, 2)
    if where == "scaled":
        return P * 10 ** rng.uniform(-2, 5) + rng.normal(size=3)
    if where == "lattice":  # whole-number offset
        return P + rng.integers(-20, 21, size=3)
    if where == "tiny":
        return P * 10 ** rng.uniform(-7, -3)
    if where == "huge":
        return P * 10 ** rng.uniform(5, 8)
    if where == "ecef":
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        return P * 10 ** rng.uniform(1.5, 5) + u * 6.37e6
    raise ValueError(where)


def body_points(rng, kind=None, where=None):
    kind = kind or str(rng.choice(BODY_KINDS))
    where = where or str(rng.choice(PLACES, p=[0.35, 0.15, 0.15, 0.15, 0.1, 0.05, 0.05]))
    P = shape(rng, kind)
    if rng.random() < 0.15:  # hardly turned: faces nearly, but not quite, along the axes
        P = P @ tilt(rng).T
    P = place(rng, P, where)
    if rng.random() < 0.5:
        P = P[rng.permutation(len(P))]
    return np.ascontiguousarray(P), kind, where


STATION_KINDS = (
    "out", "near", "far", "inside", "deep", "face", "edge", "edgemid", "vertex", "plane",
    "planenear", "line", "linenear", "nearface", "nearedge", "nearvertex", "aligned",
    "centroid", "farplane", "farline",
)


def station(rng, b, kind):
    """one station for reference body b (a refmodel.Body)"""
    s = b.size
    c = b.centroid
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    t = b.tri[int(rng.integers(len(b.tri)))]
    A, B, C = b.P[t][rng.permutation(3)]
    if kind == "out":
        return c + u * s * rng.uniform(0.8, 4)
    if kind == "near":
        w = rng.dirichlet([1, 1, 1])
        q = w @ np.array([A, B, C])
        return q + (q - c) * 10 ** rng.uniform(-3, 0)
    if kind == "far":
        return c + u * s * 10 ** rng.uniform(0.6, 2.5)
    if kind == "inside":
        w = rng.dirichlet(np.ones(len(b.vertices)))
        return w @ b.P[b.vertices]
    if kind == "deep":
        w = rng.dirichlet([1, 1, 1])
        q = w @ np.array([A, B, C])
        return c + (q - c) * rng.uniform(0, 1)
    if kind == "centroid":
        return c.copy()
    if kind == "face":
        w = rng.dirichlet([1, 1, 1])
        return w @ np.array([A, B, C])
    if kind == "edge":
        f = rng.uniform()
        return A + f * (B - A)
    if kind == "edgemid":
        f = float(rng.choice([0.25, 0.5, 0.75]))
        return A + f * (B - A)
    if kind == "vertex":
        return A.copy()
    if kind in ("plane", "planenear"):
        while True:
            w = rng.normal(size=3) * 2
            w[0] = 1 - w[1] - w[2]
            if w.min() < -0.05:
                break
        q = A + w[1] * (B - A) + w[2] * (C - A)
        if kind == "planenear":
            n = np.cross(B - A, C - A)
            n /= np.linalg.norm(n)
            q = q + n * s * 10 ** rng.uniform(-15, -2) * rng.choice([-1, 1])
        return q
    if kind == "farline":
        return A + float(rng.choice([-1, 1])) * 10 ** rng.uniform(0.5, 4) * (B - A)
    if kind == "farplane":
        n = np.cross(B - A, C - A)
        n /= np.linalg.norm(n)
        v = np.cross(n, u)
        v /= np.linalg.norm(v)
        r = s * 10 ** rng.uniform(0.5, 3)
        return A + v * r + n * r * float(rng.choice([0, 1])) * 10 ** rng.uniform(-14, -2)
    if kind in ("line", "linenear"):
        f = rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 1)
        q = A + (1 + f if f > 0 else f) * (B - A)
        if rng.random() < 0.3:
            q = A + float(rng.choice([-3, -2, -1, 2, 3, 4])) * (B - A)
        if kind == "linenear":
            q = q + u * s * 10 ** rng.uniform(-15, -2)
        return q
    if kind == "nearface":
        w = rng.dirichlet([1, 1, 1])
        n = np.cross(B - A, C - A)
        n /= np.linalg.norm(n)
        return w @ np.array([A, B, C]) + n * s * 10 ** rng.uniform(-13, -2) * rng.choice([-1, 1])
    if kind == "nearedge":
        return A + rng.uniform() * (B - A) + u * s * 10 ** rng.uniform(-12, -2)
    if kind == "nearvertex":
        return A + u * s * 10 ** rng.uniform(-12, -2)
    if kind == "aligned":
        # shares coordinates with corners: in axis planes / lines of axis-aligned bodies
        q = c + u * s * rng.uniform(0.3, 3)
        for i in range(3):
            if rng.random() < 0.5:
                q[i] = b.P[int(rng.integers(len(b.P))), i]
        return q
    raise ValueError(kind)


DENSITIES = (1000.0, 2670.0, 3300.0, 1.0, 917.0, -400.0, 1030.0)
GCS = (6.67408e-11, 6.67430e-11, 6.674e-11, 1.0)


def physics(rng):
    return float(rng.choice(DENSITIES)) * (1 if rng.random() < 0.7 else rng.uniform(0.5, 2)), float(rng.choice(GCS))
