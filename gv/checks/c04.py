"""C04 fields are linear and add up over bodies and calls"""

import numpy as np

from gv import gen, grav, refmodel

LEVEL = "exploration"
RULE = (
    "linear: one body and station, densities and constants incl. zero, negative, tiny and huge, compared with the scaled field for unit "
    "factors; sum: 1-5 bodies given to one station as lists (any order, repeated bodies, bodies that live for one call only, empty list), singly, and in successive calls with "
    "different densities and options, compared with the sum of separate evaluations after every call; cut: a body cut by up to 3 planes, "
    "parts in any order; refuse: lists with an element that is not a body. Distinct and non-trivial by (family, kinds of bodies, list shape, "
    "options, number of parts), with a non-zero field."
)
ASSUMPTIONS = ["the bound of the reference model covers the rounding errors of each evaluation"]
REQUIRED = ["linearity compared", "sum compared", "cut compared", "refused list", "tensor stays zero", "zero density", "long list", "zero density after others", "temporary bodies"]


def setup(tier):
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("linear", 400, 5), ("sum", 500, 5), ("cut", 400, 5), ("refuse", 200, 10)]
    return [("linear", 8000, 20), ("sum", 12000, 20), ("cut", 10000, 20), ("refuse", 1000, 10)]


def a_body(rng, where=None):
    P, kind, where = gen.body_points(rng, where=where or str(rng.choice(["origin", "offset", "scaled", "tiny"])))
    return P, kind, refmodel.Body(P)


def judged(b, S):
    return grav.off_surface(b, S)[0]


def linear(i, rng, mon):
    P, kind, b = a_body(rng)
    p = grav.polyhedron(P)
    k = str(rng.choice(gen.STATION_KINDS))
    s = gen.station(rng, b, k)
    f = refmodel.field(b, s)
    tj = bool(judged(b, s)[0])
    grad = bool(rng.random() < 0.6)
    G1, T1 = grav.evaluate(p, s, 1.0, 1.0, grad)
    G1, T1 = grav.vec(G1), grav.mat(T1)
    rhos = [0.0, -1.0, 2.0, 1000.0, -2670.0, 1e-12, 1e12, float(rng.normal()), 3, np.float64(917.0), np.float32(2.5), -0.0]
    for _ in range(4):
        rho = rhos[int(rng.integers(len(rhos)))]
        gc = [6.67408e-11, 1.0, 0.0, -1.0, 1e-20, float(rng.uniform(0.5, 2)), 2][int(rng.integers(7))]
        G, T = grav.evaluate(p, s, rho, gc, grad, str(rng.choice(["station", "polyhedron"])))
        c = np.longdouble(rho) * np.longdouble(gc)
        u = abs(float(c))
        w = dict(points=P, station=s, density=rho, Gc=gc, gradient=grad, G=G, T=T, unit_G=G1, unit_T=T1)
        mon.event("linearity compared")
        if u == 0:
            mon.event("zero density")
            if np.any(np.asarray(G) != 0) or (tj and np.any(np.asarray(T) != 0)):
                mon.violate("zero density or constant gives a field", **w)
        if u:
            mon.evaluated("linear", kind, k, float(np.sign(float(c))), grad, repr(rho), repr(gc) if gc in (1.0, 2, -1.0) else "")
        eg = float(np.abs(grav.vec(G) - c * G1).max())
        if not eg <= (2 * grav.K * f.gb[0] * grav.MGAL + 1e-300) * u:
            mon.violate(f"gravity is not proportional to density and constant ({eg:.3g} mGal)", **w)
        if tj:
            et = float(np.abs(grav.mat(T) - c * T1).max()) if np.asarray(T).size == 9 else np.inf
            if not et <= 2 * grav.K * f.Tb[0] * grav.EOTVOS * u:
                mon.violate(f"gradient is not proportional to density and constant ({et:.3g} E)", **w)
        if not grad:
            mon.event("tensor stays zero")
            if np.any(np.asarray(T) != 0):
                mon.violate("tensor is not zero without the gradient option", **w)


def total(i, rng, mon):
    n = int(rng.integers(1, 6))
    where = str(rng.choice(["origin", "offset", "origin"]))
    bodies = [a_body(rng, where) for _ in range(n)]
    polys = [grav.polyhedron(P) for P, _, _ in bodies]
    # stations related to any of the bodies
    b = bodies[int(rng.integers(n))][2]
    k = str(rng.choice(gen.STATION_KINDS))
    s = gen.station(rng, b, k)
    fs = [refmodel.field(x[2], s) for x in bodies]
    tj = all(bool(judged(x[2], s)[0]) for x in bodies)
    one = [tuple(map(np.array, grav.evaluate(grav.polyhedron(x[0]), s.copy(), 1.0, 1.0, True))) for x in bodies]
    st = grav.station(s.copy())
    G, T = np.zeros(3, np.longdouble), np.zeros((3, 3), np.longdouble)
    tolG = tolT = 0.0
    calls = []
    # many calls with the same constants, each on a body that lives for that call only
    fleeting = rng.random() < 0.12
    same = gen.physics(rng), bool(rng.random() < 0.6)
    for _ in range(int(rng.integers(1, 5)) if not fleeting else int(rng.integers(6, 25))):
        m = 1 if fleeting else int(rng.integers(0, 5)) if rng.random() < 0.9 else int(rng.integers(8, 40))
        if m > 10:
            mon.event("long list")
        ids = [int(x) for x in rng.integers(n, size=m)]
        rho, gc = gen.physics(rng) if not fleeting else same[0]
        if rng.random() < (0.15 if not fleeting else 0.05):
            rho, gc = [(0.0, gc), (rho, 0.0), (0, gc), (-0.0, gc)][int(rng.integers(4))]
            if calls:
                mon.event("zero density after others")
        grad = bool(rng.random() < 0.6) if not fleeting else same[1]
        shape = "list"
        arg = [polys[j] for j in ids]
        if m and (fleeting or rng.random() < 0.3):
            # bodies that live for this call only
            arg = [grav.polyhedron(bodies[j][0]) for j in ids]
            shape = "temporary"
            mon.event("temporary bodies")
        if m == 1 and rng.random() < 0.5:
            arg, shape = arg[0], "single"
        st.compute_gravity(arg, rho, gc, gradient=grad)
        del arg
        calls.append((shape, ids, rho, gc, grad))
        c = rho * gc
        for j in ids:
            G += np.longdouble(c) * grav.vec(one[j][0])
            tolG += abs(c) * fs[j].gb[0] * grav.MGAL
            if grad:
                T += np.longdouble(c) * grav.mat(one[j][1])
                tolT += abs(c) * fs[j].Tb[0] * grav.EOTVOS
        # rounding of the running sums
        tolG += grav.EPS * float(np.abs(G).max())
        tolT += grav.EPS * float(np.abs(T).max()) if tj else 0
        w = dict(points=[x[0] for x in bodies], station=s, calls=calls, G=st.G, expected=G, T=st.T, expected_T=T)
        mon.event("sum compared")
        if m:
            mon.evaluated("sum", shape, m, len(set(ids)), grad, len(calls), [bodies[j][1] for j in ids])
        eg = float(np.abs(grav.vec(st.G) - G).max())
        if not eg <= 2 * grav.K * tolG:
            mon.violate(f"gravity at the station is not the sum over bodies and calls ({eg:.3g} > {2 * grav.K * tolG:.3g} mGal)", **w)
            return
        if not any(x[4] for x in calls) and np.any(np.asarray(st.T) != 0):
            mon.violate("tensor is not zero without the gradient option", **w)
            return
        if tj:
            et = float(np.abs(grav.mat(st.T) - T).max())
            if not et <= 2 * grav.K * tolT:
                mon.violate(f"tensor at the station is not the sum over bodies and calls ({et:.3g} > {2 * grav.K * tolT:.3g} E)", **w)
                return
    mon.sample({"bodies": n, "calls": calls, "G": st.G, "expected": G})


def split(P, n, c):
    """the two parts of the convex body P on both sides of the plane n.x = c"""
    d = P @ n - c
    if (d > 0).sum() == 0 or (d < 0).sum() == 0:
        return None
    new = []
    pos, neg = P[d > 0], P[d < 0]
    dp, dn = d[d > 0], d[d < 0]
    for a, x in zip(pos, dp):
        for z, y in zip(neg, dn):
            t = x / (x - y)
            new.append(a + t * (z - a))
    new = np.array(new + list(P[d == 0]))
    return np.r_[pos, new], np.r_[neg, new]


def cut(i, rng, mon):
    kind = str(rng.choice(["cube", "tetra", "box", "rotbox", "cloud", "sphere", "prism", "pyramid", "octa", "roof", "lattice"]))
    P = gen.place(rng, gen.shape(rng, kind), str(rng.choice(["origin", "offset", "scaled"])))
    b = refmodel.Body(P)
    parts = [P[b.vertices]]
    for _ in range(int(rng.integers(1, 4))):
        j = int(rng.integers(len(parts)))
        Q = parts[j]
        if rng.random() < 0.4:
            n = np.eye(3)[int(rng.integers(3))]
        else:
            n = rng.normal(size=3)
            n /= np.linalg.norm(n)
        h = Q @ n
        t = rng.uniform(0.25, 0.75)
        r = split(Q, n, h.min() + t * (h.max() - h.min()))
        if r is None:
            continue
        try:
            r = [refmodel.Body(x) for x in r]
        except Exception:
            continue
        if min(x.volume for x in r) < 1e-4 * b.volume:
            continue
        # keep the corners only
        parts[j : j + 1] = [x.P[x.vertices] for x in r]
    if len(parts) < 2:
        return
    refs = [refmodel.Body(x) for x in parts]
    order = rng.permutation(len(parts))
    whole = grav.polyhedron(P)
    polys = [grav.polyhedron(parts[j]) for j in order]
    rho, gc = gen.physics(rng)
    c = abs(rho * gc)
    for _ in range(4):
        src = b if rng.random() < 0.5 else refs[int(rng.integers(len(refs)))]
        k = str(rng.choice(gen.STATION_KINDS))
        s = gen.station(rng, src, k)
        f = refmodel.field(b, s)
        fr = [refmodel.field(r, s) for r in refs]
        tj = bool(judged(b, s)[0]) and all(bool(judged(r, s)[0]) for r in refs)
        G, T = grav.evaluate(whole, s, rho, gc, True)
        st = grav.station(s)
        st.compute_gravity(polys, rho, gc, gradient=True)
        # the cut points are rounded: volume between the exact and the rounded pieces
        m = max(b.maxabs, float(np.abs(s).max()))
        slip = 200 * grav.EPS * m * len(parts)
        tol = (2 * grav.K * (f.gb[0] + sum(x.gb[0] for x in fr)) + slip * 60) * c * grav.MGAL
        eg = float(np.abs(grav.vec(st.G) - grav.vec(G)).max())
        mon.event("cut compared")
        mon.evaluated("cut", kind, len(parts), k, tj)
        w = dict(points=P, parts=parts, station=s, density=rho, Gc=gc, whole=G, parts_sum=st.G)
        if not eg <= tol:
            mon.violate(f"gravity of the parts does not add up to that of the body ({eg:.3g} > {tol:.3g} mGal)", **w)
        if tj:
            dist = min([float(b.edge_distance(s)[0])] + [float(r.edge_distance(s)[0]) for r in refs])
            tol = (2 * grav.K * (f.Tb[0] + sum(x.Tb[0] for x in fr)) + slip * 100 / dist) * c * grav.EOTVOS
            et = float(np.abs(grav.mat(st.T) - grav.mat(T)).max())
            mon.event("cut tensor compared")
            if not et <= tol:
                mon.violate(f"gradient of the parts does not add up to that of the body ({et:.3g} > {tol:.3g} E)", **w)


def refuse(i, rng, mon):
    P, kind, b = a_body(rng)
    p = grav.polyhedron(P)
    s = gen.station(rng, b, "out")
    st = grav.station(s.copy())
    if rng.random() < 0.7:
        st.compute_gravity(p, 1000.0, 6.67e-11, gradient=bool(rng.random() < 0.5))
    G, T = np.array(st.G), np.array(st.T)
    bad = [None, P, "body", 3, [p], st, p.faces[0]][int(rng.integers(7))]
    arg = [p] * int(rng.integers(0, 4))
    arg.insert(int(rng.integers(len(arg) + 1)), bad)
    if len(arg) == 1 and rng.random() < 0.5 and not isinstance(bad, list):
        arg = bad
    try:
        st.compute_gravity(arg, 1000.0, 6.67e-11, gradient=True)
    except Exception:
        mon.event("refused list")
    else:
        mon.violate("a list with an element that is not a body is accepted", arg=repr(type(bad)), n=len(arg) if isinstance(arg, list) else 1)
        return
    mon.evaluated("refuse", type(bad).__name__, len(arg) if isinstance(arg, list) else 0, bool(G.any()))
    if np.any(np.asarray(st.G) != G) or np.any(np.asarray(st.T) != T) or np.any(np.asarray(st.coord) != s):
        mon.violate("a refused call changed the station", before=G, after=st.G, before_T=T, after_T=st.T)


def case(family, i, rng, mon):
    {"linear": linear, "sum": total, "cut": cut, "refuse": refuse}[family](i, rng, mon)
