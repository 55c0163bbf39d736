"""A fixed workload of evaluations, run here or in another process (python -m gv.repro)."""

import json
import os
import sys

import numpy as np


def inputs(seed, tagno, n):
    """n bodies with stations and options, from the seed alone"""
    from gv import gen, refmodel
    from gv.checks import c01

    rng = np.random.default_rng([seed, 77, tagno])
    out = []
    for i in range(n):
        P, kind, where = gen.body_points(rng)
        how = "plain"
        if i == 0 and (n > 5 or tagno % 10 == 0):
            # many faces
            P = rng.normal(size=(int(rng.integers(60, 150)), 3))
            P, kind, where, how = P / np.linalg.norm(P, axis=1)[:, None] * 10 ** rng.uniform(-1, 4), "ball", "origin", "many faces"
        elif rng.random() < 0.5:
            P, how = c01.hostile_points(rng, P)
        b = refmodel.Body(P)
        kinds = [str(k) for k in rng.choice(gen.STATION_KINDS, 5)]
        S = np.array([gen.station(rng, b, k) for k in kinds])
        if how == "int" and rng.random() < 0.5:
            S = np.round(S).astype(np.int64)
        rho, gc = gen.physics(rng)
        grads = [bool(x) for x in rng.random(5) < 0.7]
        apis = [str(x) for x in rng.choice(["station", "polyhedron"], 5)]
        out.append(dict(P=P, b=b, S=S, kinds=kinds, rho=rho, gc=gc, grads=grads, apis=apis, label=f"{kind}/{where}/{how}"))
    return out


def evaluate(items, order=None):
    """(len(items), stations, 12) values; order of the evaluations as given"""
    from gv import grav

    R = np.full((len(items), 5, 12), np.nan)
    bodies = {}
    todo = [(i, j) for i in range(len(items)) for j in range(5)]
    if order is not None:
        todo = [todo[k] for k in order.permutation(len(todo))]
    for i, j in todo:
        w = items[i]
        if i not in bodies:
            bodies[i] = grav.polyhedron(w["P"].copy())
        G, T = grav.evaluate(bodies[i], w["S"][j].copy(), w["rho"], w["gc"], w["grads"][j], w["apis"][j])
        R[i, j, :3] = np.asarray(G, float).reshape(3)
        R[i, j, 3:] = np.asarray(T, float).reshape(9)
    return R


def same(A, B):
    """bit for bit (all NaN alike)"""
    return A.shape == B.shape and bool(np.all((A.view(np.uint64) == B.view(np.uint64)) | (np.isnan(A) & np.isnan(B))))


def poison(rng):
    """leave recognisable garbage in freed memory"""
    keep = [np.full(int(k), x) for k in list(range(1, 60)) * 6 for x in (np.nan, 1e300, -7.7)]
    del keep


def poison_empty(value):
    """uninitialised arrays hold a value instead of what happens to be in memory"""
    for name in ("empty", "empty_like"):

        def filled(*a, _real=getattr(np, name), **k):
            x = _real(*a, **k)
            if x.dtype.kind in "fc":
                x.fill(value)
            elif x.dtype.kind in "iu":
                x.fill(np.iinfo(x.dtype).max)
            elif x.dtype.kind == "b":
                x.fill(True)
            return x

        setattr(np, name, filled)


def main(spec):
    from gv import core

    sys.path.insert(0, core.REPO)
    import warnings

    warnings.simplefilter("ignore")
    from loguru import logger

    logger.remove()
    order = None
    if spec.get("state") is not None:
        import random

        r = np.random.default_rng(spec["state"])
        random.seed(int(r.integers(2**31)))
        np.random.seed(int(r.integers(2**31)))
        poison(r)
    items = inputs(spec["seed"], spec["tag"], spec["n"])
    if spec.get("fill") is not None:
        from gv import grav

        grav.warm()
        poison_empty(float(spec["fill"]))
    if spec.get("order") is not None:
        order = np.random.default_rng(spec["order"])
    with np.errstate(all="ignore"):
        if spec.get("thread"):
            import threading

            box = []

            def go():
                with np.errstate(all="ignore"):
                    try:
                        box.append(evaluate(items, order))
                    except BaseException as exc:
                        box.append(exc)

            threading.stack_size(16 << 20)
            t = threading.Thread(target=go)
            t.start()
            t.join()
            if isinstance(box[0], BaseException):
                raise box[0]
            R = box[0]
        else:
            R = evaluate(items, order)
    np.save(spec["out"], R)
    import numba

    print(json.dumps({"jit": not numba.config.DISABLE_JIT, "boundscheck": bool(numba.config.BOUNDSCHECK), "hash": hash("geec") % 1000}))


if __name__ == "__main__":
    main(json.loads(os.environ["GV_SPEC"]))
