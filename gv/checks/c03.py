"""C03 an evaluation does not depend on what was evaluated before"""

import numpy as np

from gv import faults, gen, grav, refmodel

LEVEL = "fault_enumeration"
RULE = (
    "history: random sequences of 14 operations on 3 shared bodies (evaluations with mixed options, near-identical stations, "
    "repeated stations with another density, calls that fail, writing into the arrays given and into results received); every result must equal bit for bit that of a "
    "body built anew from a pristine copy of the points. fault: an evaluation is interrupted (error or keyboard interrupt) at "
    "its k-th executed line, for every k, then the body is evaluated again with other options. Distinct and non-trivial by "
    "(operation, previous operation on that body, options) and by (faulted function, line count, exception, gradient option)."
)
ASSUMPTIONS = ["an evaluation is deterministic (C14)", "faults are raised between lines of the code under test, not inside compiled kernels"]
REQUIRED = ["compared with a new body", "same evaluation again", "fault injected", "compared after a fault", "inputs compared", "call failed", "station array used again", "neighbouring station"]
NF = 48


def setup(tier):
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("history", 600, 5), ("fault_tetra", NF, 1), ("fault_box", NF, 1)]
    return [("history", 12000, 20), ("fault_tetra", NF, 1), ("fault_box", NF, 1), ("fault_any", 40 * NF, 2)]


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def result(p, s, rho, gc, grad, api):
    G, T = grav.evaluate(p, s, rho, gc, grad, api)
    return G, np.asarray(T)


def fresh(P0, s0, rho, gc, grad, api):
    G, T = result(grav.polyhedron(P0.copy()), s0.copy(), rho, gc, grad, api)
    return np.array(G, float), np.array(T, float)


def fault_case(family, i, rng, mon):
    # the fault enumeration works on fixed bodies and covers all line counts k = i (mod NF)
    r0 = np.random.default_rng([11, i // NF if family == "fault_any" else 0])
    k0 = i % NF
    if family == "fault_tetra":
        P0 = np.array([(0.1, 0, 0), (1.3, 0.2, 0), (0.2, 0.9, 0.1), (0.3, 0.4, 1.1)])
    elif family == "fault_box":
        P0 = gen.CUBE * [1, 2, 3]
    else:
        P0, _, _ = gen.body_points(r0, str(r0.choice(["tetra", "cube", "pyramid", "roof", "inttetra"])))
    b = refmodel.Body(P0)
    S = [gen.station(r0, b, k) for k in ("out", "near", "inside")]
    S.append(S[0] + 0.05 * b.size)
    opts = [(1000.0, 6.67408e-11, True), (1000.0, 6.67408e-11, False), (2670.0, 1.0, True)]
    want = {}
    for a, s in enumerate(S):
        for o, (rho, gc, grad) in enumerate(opts):
            want[a, o] = fresh(P0, s, rho, gc, grad, "polyhedron")
    for grad_opt in (0, 1) if family != "fault_box" else (0,):
        rho, gc, grad = opts[grad_opt]
        p = grav.polyhedron(P0.copy())
        _, _, n, _ = faults.run(lambda: result(p, S[0], rho, gc, grad, "station"))
        step = NF if family == "fault_tetra" else NF * 3 if family == "fault_box" else NF * 4
        mon.event("lines of one evaluation", n if k0 == 0 else 0)
        for k in range(1 + k0, n + 1, step):
            exc = (faults.InjectedError, faults.InjectedInterrupt)[(k // step) % 2]
            st = grav.station(S[0].copy())
            out, _, _, where = faults.run(lambda: st.compute_gravity(p, rho, gc, gradient=grad), k, exc)
            if out != "injected":
                mon.event(f"fault not delivered ({out})")
                continue
            mon.event("fault injected")
            mon.evaluated(family, where, k, exc.__name__, grad_opt)
            for a, o in ((0, (k // 7) % 3), (1 + k % 3, k % 3), (0, grad_opt)):
                r, g, q = opts[o]
                G, T = result(p, S[a], r, g, q, "polyhedron")
                mon.event("compared after a fault")
                if not (same(G, want[a, o][0]) and same(T, want[a, o][1])):
                    mon.violate(
                        f"after an evaluation interrupted at line event {k} ({where}), the body gives another result",
                        points=P0, station=S[a], options=opts[o], interrupted=opts[grad_opt], exception=exc.__name__, k=k,
                        G=G, expected=want[a, o][0], T=T, expected_T=want[a, o][1],
                    )
                    p = grav.polyhedron(P0.copy())
                    break


BAD = [
    ("nan station", lambda p, s: p.get_gravity(np.array([np.nan, 0.0, 1.0]), 1.0, 1.0, True)),
    ("inf station", lambda p, s: p.get_gravity(np.array([np.inf, 0.0, 1.0]), 1.0, 1.0, False)),
    ("2-d station", lambda p, s: p.get_gravity(s[:2], 1.0, 1.0, True)),
    ("5-d station", lambda p, s: p.get_gravity(np.r_[s, s[:2]], 1.0, 1.0, True)),
    ("text density", lambda p, s: p.get_gravity(s, "a", 1.0, True)),
    ("no density", lambda p, s: p.get_gravity(s, None, 1.0, False)),
    ("no constant", lambda p, s: p.get_gravity(s, 1.0, None, True)),
    ("text station", lambda p, s: p.get_gravity(np.array(["a", "b", "c"]), 1.0, 1.0, True)),
    ("no station", lambda p, s: p.get_gravity(None, 1.0, 1.0)),
    ("huge station", lambda p, s: p.get_gravity(s * 1e160, 1.0, 1.0, True)),
]


def history(i, rng, mon):
    bodies = []
    for _ in range(3):
        P, kind, where = gen.body_points(rng, where=str(rng.choice(["origin", "offset", "scaled"])))
        bodies.append([P.copy(), P, grav.polyhedron(P), kind, "new"])
    b0 = refmodel.Body(bodies[0][0])
    base = [gen.station(rng, refmodel.Body(x[0]), str(rng.choice(gen.STATION_KINDS))) for x in bodies for _ in range(2)]
    stations = []
    for s in base:
        stations.append(s)
        stations.append(s + rng.normal(size=3) * b0.size * 10.0 ** rng.integers(-9, 0))
    # hardly different stations
    for s in base[:2]:
        m = np.abs(s).max() + b0.size
        stations += [np.nextafter(s, np.inf), s + rng.normal(size=3) * m * 10.0 ** rng.integers(-15, -8)]
    # same distance, or same coordinate sum, to catch weak identification of stations
    stations += [base[0][[1, 0, 2]].copy(), -base[0], base[0].round(3)]
    held = []
    trace = []
    buffer = np.zeros(3)  # one array used again and again for the station
    for step in range(14):
        bi = int(rng.integers(3)) if rng.random() < 0.6 else 0
        P0, P, p, kind, prev = bodies[bi]
        u = rng.random()
        if u < 0.15:
            name, f = BAD[int(rng.integers(len(BAD)))]
            try:
                f(p, stations[0])
                mon.event("call with bad arguments returned")
            except Exception:
                mon.event("call failed")
            bodies[bi][4] = name
            trace.append((bi, name))
            continue
        if u < 0.25:
            # write into arrays given to the body and into results handed out before
            if rng.random() < 0.5:
                P *= 1.5
                P += 3.0
                op = "write into points"
            elif held:
                G, T, G0, T0 = held.pop()
                G[:] = 7.0
                if T.size:
                    T[...] = 5.0
                op = "write into result"
            else:
                op = "nothing"
            bodies[bi][4] = op
            trace.append((bi, op))
            continue
        rho, gc = gen.physics(rng)
        grad = bool(rng.random() < 0.5)
        api = str(rng.choice(["station", "polyhedron"]))
        si = int(rng.integers(len(stations)))
        last = next((t for t in reversed(trace) if t[0] == bi and len(t) > 3), None)
        if last and rng.random() < 0.5:
            si = last[3]  # same station again
            if rng.random() < 0.35:  # or one next to it
                d = [np.abs(x - stations[si]).max() for x in stations]
                si = int(np.argsort(d)[1])
                mon.event("neighbouring station")
            if rng.random() < 0.5:  # and all the same, or all but one
                _, _, grad, _, rho, gc, api = last
                rho, gc, grad = [(rho, gc, grad), (rho, gc, grad), (-rho, gc, grad), (rho, gc * 2, grad), (rho, gc, not grad), (gc, rho, grad), (rho * 2, gc / 2, grad)][int(rng.integers(7))]
                mon.event("same evaluation again")
                if held and rng.random() < 0.7:
                    # the caller goes on working with the results it has
                    hG, hT, _, _ = held.pop()
                    hG *= 2.0
                    hT += 1.0
                    trace.append((bi, "write into result"))
        s0 = stations[si].copy()
        s = s0.copy()
        if rng.random() < 0.5:
            s = buffer
            s[:] = s0
            mon.event("station array used again")
        P1 = P.copy()
        G, T = result(p, s, rho, gc, grad, api)
        trace.append((bi, "evaluate", grad, si, rho, gc, api))
        wG, wT = fresh(P0, s0, rho, gc, grad, api)
        mon.event("compared with a new body")
        mon.evaluated(kind, prev, grad, api, trace[-2][1:3] if len(trace) > 1 else None)
        if not (same(G, wG) and same(T, wT)):
            mon.violate(
                "a body with a history gives another result than a new body",
                points=P0, station=s0, density=rho, Gc=gc, gradient=grad, api=api, history=trace, G=G, expected=wG, T=T, expected_T=wT,
            )
            return
        mon.event("inputs compared")
        if not same(s, s0) or not same(P, P1):
            mon.violate("an evaluation modified the arrays it was given", points=P0, station=s0, points_after=P, station_after=s, gradient=grad)
            return
        for hG, hT, G0, T0 in held:
            if not (same(hG, G0) and same(hT, T0)):
                mon.violate("an evaluation modified a result handed out before", points=P0, station=s0, before=G0, after=hG, before_T=T0, after_T=hT)
                return
        held.append((G, T, np.array(G, float), np.array(T, float)))
        # the array given as station may be reused by the caller
        s += 1e3
        bodies[bi][4] = f"evaluate {grad}"
    mon.sample({"history": trace[:6]})


def case(family, i, rng, mon):
    if family == "history":
        history(i, rng, mon)
    else:
        fault_case(family, i, rng, mon)
