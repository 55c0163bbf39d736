"""C14 results are reproducible across processes and compilation modes"""

import gc
import json
import os
import random
import subprocess
import sys
import threading

import numpy as np

from gv import core, grav, refmodel, repro, runs

LEVEL = "exploration"
RULE = (
    "process: a workload (bodies and hostile stations of C01, mixed input types, options and entry points) is evaluated in this process and in new ones that differ in hash seed, "
    "state of the random number generators, order of evaluation, thread, number of threads, locale, content of fresh memory (MALLOC_PERTURB_, freed arrays full of NaN, uninitialised arrays filled with NaN or another number), python -O / -X dev / debug allocator: "
    "all bits equal; interpreted (NUMBA_DISABLE_JIT), bounds-checked (NUMBA_BOUNDSCHECK) and unoptimised (NUMBA_OPT=0) processes: equal within twice the error bound of the "
    "reference model, and no IndexError. inproc: the same evaluations repeated here after disturbing random states, memory, floating-point error mode, order, and in 4 concurrent "
    "threads with bodies of their own and a switch interval of 1 us: all bits equal. run: the same `geec run` in differing processes writes the same bytes. Distinct "
    "and non-trivial by (environment, body kind, station kind, options)."
)
ASSUMPTIONS = [
    "one machine, one installation: other processors or library versions may round differently",
    "a body is not evaluated by several threads at the same time (nothing promises that)",
    "bounds checking observes the compiled kernels on the workload only",
]
REQUIRED = ["bits compared", "hash seed", "threads", "order", "random state", "memory", "interpreted", "bounds checked", "concurrent", "run bytes compared", "uninitialised", "many faces", "1000 observers"]

ENVS = {
    "hash seed": ({"PYTHONHASHSEED": "1"}, {}),
    "hash seed 2": ({"PYTHONHASHSEED": "4242"}, {}),
    "hash random": ({"PYTHONHASHSEED": "random"}, {}),
    "random state": ({}, {"state": 1}),
    "random state 2": ({"PYTHONHASHSEED": "7"}, {"state": 2}),
    "memory": ({"MALLOC_PERTURB_": "165"}, {}),
    "memory 2": ({"MALLOC_PERTURB_": "1", "PYTHONMALLOC": "malloc"}, {"state": 3}),
    "uninitialised": ({}, {"fill": "nan"}),
    "uninitialised 2": ({}, {"fill": "-7.5e99"}),
    "debug": ({"PYTHONMALLOC": "debug"}, {}),
    "order": ({}, {"order": 5}),
    "thread": ({}, {"thread": True, "order": 6}),
    "threads": ({"OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4", "MKL_NUM_THREADS": "4", "NUMBA_NUM_THREADS": "4"}, {}),
    "optimise": ({"PYTHONOPTIMIZE": "1"}, {}),
    "dev": ({"PYTHONDEVMODE": "1"}, {}),
    "locale": ({"LC_ALL": "C", "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo"}, {}),
    "interpreted": ({"NUMBA_DISABLE_JIT": "1"}, {}),
    "bounds checked": ({"NUMBA_BOUNDSCHECK": "1"}, {}),
    "unoptimised": ({"NUMBA_OPT": "0"}, {}),
}
LOOSE = ("interpreted", "bounds checked", "unoptimised")
N = 60


def setup(tier):
    runs.prepare()
    # this process, before the fork: grids must not be opened


def plan(tier):
    if tier == "quick":
        return [("process", 2 * len(ENVS), 1), ("inproc", 160, 4), ("run", 8, 1)]
    return [("process", 30 * len(ENVS), 1), ("inproc", 6000, 10), ("run", 100, 1)]


def loose(mon, items, A, B, name, judge=True):
    """same up to rounding: within the error bound of the reference model"""
    worst = None
    for i, w in enumerate(items):
        b = w["b"]
        f = refmodel.field(b, w["S"])
        off, _ = grav.off_surface(b, w["S"])
        u = abs(w["rho"] * w["gc"])
        for j in range(5):
            e = np.abs(A[i, j] - B[i, j])
            tol = 2 * grav.K * f.gb[j] * u * grav.MGAL
            if not e[:3].max() <= tol:
                mon.violate(f"{name}: gravity differs by {e[:3].max():.3g} (> {tol:.3g})", points=w["P"], station=w["S"][j], kind=w["kinds"][j], here=A[i, j], there=B[i, j])
                return False
            if off[j]:
                tol = 2 * grav.K * f.Tb[j] * u * grav.EOTVOS
                if not e[3:].max() <= tol:
                    mon.violate(f"{name}: gradient differs by {e[3:].max():.3g} (> {tol:.3g})", points=w["P"], station=w["S"][j], kind=w["kinds"][j], here=A[i, j], there=B[i, j])
                    return False
    return True


def first_difference(items, A, B):
    for i, j in np.ndindex(A.shape[:2]):
        if not repro.same(A[i, j], B[i, j]):
            w = items[i]
            return dict(points=w["P"], station=w["S"][j], kind=w["kinds"][j], density=w["rho"], Gc=w["gc"], gradient=w["grads"][j], api=w["apis"][j], here=A[i, j], there=B[i, j], difference=B[i, j] - A[i, j])


_here = {}


def case_process(i, seed, mon):
    name = list(ENVS)[i % len(ENVS)]
    tagno = i // len(ENVS)
    key = (seed, tagno)
    if key not in _here:
        items = repro.inputs(seed, tagno, N)
        _here.clear()
        _here[key] = (items, repro.evaluate(items))
    items, A = _here[key]
    env, extra = ENVS[name]
    out = os.path.join(os.environ["GV_SCRATCH"], f"c14-{os.getpid()}-{i}.npy")
    spec = dict(seed=seed, tag=tagno, n=N, out=out, **extra)
    e = dict(os.environ, PYTHONPATH=core.VERIF, GV_SPEC=json.dumps(spec), **env)
    r = subprocess.run([sys.executable, "-m", "gv.repro"], env=e, cwd=os.environ["GV_SCRATCH"], capture_output=True, text=True, timeout=220)
    if r.returncode or not os.path.exists(out):
        if f'File "{core.PKG}' in r.stderr or "IndexError" in r.stderr:
            mon.violate(f"{name}: the evaluations fail in that process", stderr=r.stderr[-2500:], env=env)
            return
        raise RuntimeError(f"{name}: {r.stderr[-2000:]}")
    B = np.load(out)
    os.remove(out)
    facts = json.loads(r.stdout.strip().split("\n")[-1])
    if name == "interpreted" and facts["jit"] or name == "bounds checked" and not facts["boundscheck"]:
        raise RuntimeError(f"{name} is not in force")
    if name in LOOSE:
        if not loose(mon, items, A, B, name):
            return
        mon.event("compared up to rounding", A.shape[0] * 5)
    else:
        if not repro.same(A, B):
            mon.violate(f"{name}: results differ between processes", env=env, **first_difference(items, A, B))
            return
        mon.event("bits compared", A.size)
    mon.event(name.rstrip(" 2"))
    for w in items:
        if w["label"].endswith("many faces"):
            mon.event("many faces")
        for j in range(5):
            mon.evaluated(name, w["label"], w["kinds"][j], w["grads"][j])
    mon.sample({"environment": name, "env": env, "child": facts, "values": int(A.size), "finite": int(np.isfinite(A).sum())})


def disturb(rng, what):
    if what == "random":
        random.seed(int(rng.integers(2**31)))
        np.random.seed(int(rng.integers(2**31)))
        np.random.rand(int(rng.integers(1, 1000)))
    elif what == "memory":
        repro.poison(rng)
    elif what == "gc":
        gc.collect()


def case_inproc(i, seed, mon, rng):
    items = repro.inputs(seed, 10**6 + i, 5)
    A = repro.evaluate(items)
    for what in ("repeat", "random", "memory", "order", "errstate", "gc off", "thread", "concurrent"):
        order = None
        if what in ("random", "memory"):
            disturb(rng, what)
        if what in ("order", "memory"):
            order = np.random.default_rng(int(rng.integers(2**31)))
        if what == "errstate":
            with np.errstate(divide="warn", over="warn", invalid="warn", under="ignore"):
                Bs = [repro.evaluate(items)]
        elif what == "gc off":
            gc.disable()
            try:
                Bs = [repro.evaluate(items)]
            finally:
                gc.enable()
        elif what in ("thread", "concurrent"):
            n = 1 if what == "thread" else 4
            Bs = [None] * n
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)

            def go(k):
                try:
                    with np.errstate(all="ignore"):
                        Bs[k] = repro.evaluate(items, np.random.default_rng([i, k]) if k else None)
                except BaseException as exc:
                    Bs[k] = exc

            try:
                ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
                [t.start() for t in ts]
                [t.join() for t in ts]
            finally:
                sys.setswitchinterval(old)
            bad = [b for b in Bs if isinstance(b, BaseException)]
            if bad:
                mon.violate(f"{what}: evaluation raised {bad[0]!r} in a thread", points=[w["P"] for w in items])
                return
        else:
            Bs = [repro.evaluate(items, order)]
        for B in Bs:
            mon.event("bits compared", A.size)
            if not repro.same(A, B):
                mon.violate(f"{what}: results differ when repeated", **first_difference(items, A, B))
                return
        mon.event("random state" if what == "random" else what)
        for w in items:
            for j in range(5):
                mon.evaluated("inproc", what, w["label"], w["kinds"][j], w["grads"][j])


BOOT = """
import os, sys
import geec.api
from pathlib import Path
geec.api.setup_logdir = lambda: Path(os.environ["GV_LOG"])
from geec import cli
sys.argv[0] = "geec"
cli.app()
"""


def case_run(i, rng, mon):
    work = runs.Work("c14.")
    try:
        size = {"nobs": int(rng.integers(2, 9))}
        if i == 0:
            size = {"nobs": int(rng.integers(1001, 1200)), "nmass": 1, "shape": "tetra"}
            mon.event("1000 observers")
        scene = runs.Scene(rng, work, geoids=False, **size)
        for m in scene.config["masses"]:
            if m["crs"]["ref"] in (None, "ellps") and rng.random() < 0.5:
                m["crs"]["vdatum"] = "egm84"
        path = scene.write()
        grad = ["--gradient"] if rng.random() < 0.7 else []
        names = list(rng.choice([k for k in ENVS if k not in LOOSE and ENVS[k][0]], 3, replace=False))
        got = []
        for k, name in enumerate(["here", *names]):
            env = {} if name == "here" else ENVS[name][0]
            code, err, _ = runs.spawn(["run", f"r{k}.csv", "--config", path, *grad], work, env=dict(env, GV_LOG=work.log), code=BOOT)
            if code:
                mon.violate(f"run failed in environment {name}: {err}", config=scene.config)
                return
            got.append(open(os.path.join(work.cwd, f"r{k}.csv"), "rb").read())
            if got[k] != got[0]:
                mon.violate(f"the same run writes another file in environment {name}", config=scene.config, here=got[0].decode()[:1500], there=got[k].decode()[:1500])
                return
            if k:
                mon.event("run bytes compared", len(got[k]))
                mon.evaluated("run", name, [m["crs"]["ref"] for m in scene.config["masses"]], bool(grad))
        mon.sample({"environments": names, "bytes": len(got[0])})
    finally:
        work.close()


def case(family, i, rng, mon):
    if family == "process":
        case_process(i, core._seed, mon)
    elif family == "inproc":
        case_inproc(i, core._seed, mon, rng)
    else:
        case_run(i, rng, mon)
