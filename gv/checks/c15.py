"""C15 nothing accumulates over long histories"""

import ctypes
import gc
import os
import sys
import threading

import numpy as np

from gv import cfg, core, gen, geo, grav, runs

GC = 6.67408e-11

LEVEL = "exploration"
RULE = (
    "One operation (evaluation through Station or body on the same or ever new stations, bodies built and dropped, conversions of datasets, geoid heights, configurations read, runs of the command, "
    "refused and failing calls of each kind) is repeated some hundred times in one process after a warm-up longer than any usual bounded cache. After each of five windows, with all results "
    "dropped and garbage collected, the monitor reads the allocated memory blocks of the interpreter, the bytes in use in malloc, the live objects of the package's classes, open file descriptors, "
    "threads, child processes, log handlers, exit handlers and temporary files; and the number of source lines one reference operation executes at the start and at the end. "
    "Distinct and non-trivial by (operation, body or system, options)."
)
ASSUMPTIONS = ["growth below a fifth of an object, or 8 bytes, per operation is not seen", "caches bounded to about a thousand evaluations or a hundred runs are no accumulation", "log files on disk, one per command, are documented behaviour"]
REQUIRED = ["memory compared", "descriptors compared", "steps compared", "evaluations", "bodies", "conversions", "heights", "configurations", "runs", "failures"]


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


try:
    _mallinfo = ctypes.CDLL("libc.so.6").mallinfo2
    _mallinfo.restype = Mallinfo
except Exception:
    _mallinfo = None


def setup(tier):
    runs.prepare()


def plan(tier):
    if tier == "quick":
        return [("evaluate", 16, 1), ("build", 8, 1), ("convert", 8, 1), ("read", 6, 1), ("run", 8, 1), ("fail", 8, 1)]
    return [("evaluate", 96, 1), ("build", 48, 1), ("convert", 64, 1), ("read", 32, 1), ("run", 48, 1), ("fail", 48, 1)]


def descriptors():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{f}"))
        except OSError:
            pass
    return out


def instances():
    """live objects of the classes of the package"""
    return sum(1 for o in gc.get_objects() if (type(o).__module__ or "").startswith("geec"))


def children():
    try:
        with open(f"/proc/self/task/{os.getpid()}/children") as f:
            return len(f.read().split())
    except OSError:
        return 0


def measure(tmp):
    from loguru import logger

    for _ in range(3):
        gc.collect()
    out = {"objects of the package": instances()}
    import atexit

    out["open file descriptors"] = len(descriptors())
    out["threads"] = threading.active_count()
    out["child processes"] = children()
    out["log handlers"] = len(logger._core.handlers)
    out["exit handlers"] = atexit._ncallbacks()
    out["temporary files"] = len(os.listdir(tmp))
    gc.collect()
    if _mallinfo is not None:
        m = _mallinfo()
        out["bytes"] = m.uordblks + m.hblkhd
    out["blocks"] = sys.getallocatedblocks()
    return out


def steps(fn):
    """number of source lines of the code under test executed by one operation"""
    n = 0
    seen = {}

    def local(frame, event, arg):
        nonlocal n
        if event == "line":
            n += 1
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in seen:
            seen[f] = os.path.realpath(f).startswith(core.PKG)
        return local if seen[f] else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(old)
    return n


OWN = 8  # objects the monitor itself keeps per window


def growing(name, seen, n, rate):
    v = [m[name] for m in seen]
    d = np.diff(v)
    if name == "bytes":
        # grows by jumps
        h = len(d) // 2
        r = 8 if rate < 1 else 64 if rate < 4 else 400
        return v[h] - v[0] >= r * n * h and v[-1] - v[h] >= r * n * (len(d) - h)
    if name == "blocks":
        return bool((d >= rate * n + OWN).all())
    return bool((d >= 0.1 * n).all())


def watch(mon, op, ref, warm, n, tmp, key, w, windows=5, rate=0.2):
    """repeats an operation and looks for what it leaves behind"""
    # the first operations may fill caches, later ones may miss them
    s0 = max(steps(ref) for _ in range(3))
    for k in range(warm):
        op(k)
    seen = [measure(tmp)]
    for j in range(windows):
        for k in range(n):
            op(warm + j * n + k)
        seen.append(measure(tmp))
    if os.environ.get("GV_C15"):
        print(key, {k: np.diff([m[k] for m in seen]).tolist() for k in ("blocks", "bytes")}, n, s0, flush=True)
    mon.event("memory compared", windows)
    mon.event("descriptors compared", windows)
    mon.event("steps compared")
    mon.evaluated(*key)
    bad = [x for x in seen[0] if growing(x, seen[1:], n, rate)]
    if bad or os.environ.get("GV_C15") == "2":
        # a history three times as long decides
        j = windows
        while (bad or os.environ.get("GV_C15") == "2") and j < 4 * windows:
            for k in range(n):
                op(warm + j * n + k)
            seen.append(measure(tmp))
            j += 1
            bad = [x for x in bad if growing(x, seen[1:], n, rate)]
        mon.event("suspicion followed")
        if os.environ.get("GV_C15"):
            print("followed", key, {k: np.diff([m[k] for m in seen]).tolist() for k in ("blocks", "bytes")}, bad, flush=True)
    for name in bad:
        mon.violate(f"{name} grow with the number of operations ({key[0]}): {[m[name] for m in seen]} after windows of {n}", **w)
        return False
    s1 = steps(ref)
    if s1 > s0:
        for k in range(n * windows):
            op(warm + k)
        s2 = steps(ref)
        if s2 <= s1:
            return True
        mon.violate(f"an operation executes {s0} source lines at first, {s1} after {warm + n * windows} others and {s2} after {n * windows} more ({key[0]})", **w)
        return False
    mon.sample({"operation": list(map(str, key)), "operations": warm + n * windows, "blocks": [m["blocks"] for m in seen], "bytes": [m.get("bytes") for m in seen], "steps": [s0, s1]})
    return True


def small_body(rng):
    if rng.random() < 0.5:
        return gen.CUBE * rng.uniform(0.5, 2, 3) + rng.normal(size=3), "box"
    return rng.normal(size=(4, 3)), "tetra"


def case_evaluate(i, rng, mon, tmp):
    P, what = small_body(rng)
    b = grav.polyhedron(P.copy())
    grad = bool(i % 2)
    mode = ["station", "body", "one station", "same place"][(i // 2) % 4]
    S = rng.normal(size=(6000, 3)) * 3
    R = rng.uniform(500, 3000, 6000)
    one = grav.station(S[0].copy())
    other = grav.polyhedron(P + 5.0)

    def op(k):
        if mode == "station":
            st = grav.station(S[k].copy())
            st.compute_gravity([b, other], float(R[k]), GC, gradient=grad)
        elif mode == "body":
            b.get_gravity(S[k].copy(), float(R[k]), GC, grad)
        elif mode == "one station":
            one.compute_gravity(b, float(R[k]), GC, gradient=grad)
        else:
            b.get_gravity(S[0], 1000.0, GC, grad)

    def ref():
        op(0)

    mon.event("evaluations")
    return watch(mon, op, ref, 1100, 150, tmp, ("evaluate", mode, what, grad), dict(points=P, mode=mode, gradient=grad))


def case_build(i, rng, mon, tmp):
    m = int(rng.integers(4, 9))
    X = rng.normal(size=(3000, m, 3))
    if i % 2:
        # the same body again and again
        X[:] = X[0]
    s = rng.normal(size=3) * 4
    evaluate = bool((i // 2) % 2)

    def op(k):
        b = grav.polyhedron(X[k].copy())
        if evaluate:
            grav.evaluate(b, s.copy(), 1000.0, GC, bool(i % 2))

    mon.event("bodies")
    return watch(mon, op, lambda: op(0), 140, 30, tmp, ("build", m, bool(i % 2), evaluate), dict(points=X[0], same=bool(i % 2)), rate=1)


def case_convert(i, rng, mon, tmp):
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer

    kind = ["ellps", "enu", "ecef", "cart"][i % 4]
    ell = geo.some_ellipsoid(rng)
    origin = geo.some_origin(rng)
    heights = kind == "ellps" and rng.random() < 0.7
    X = geo.some_points(rng, kind, 12000, ell)
    X = X.reshape(-1, 3, 3)
    seq = [str(x) for x in rng.choice(["to_ecef", "to_wgs84", "to_enu", "to_lon180"], int(rng.integers(1, 5)))]
    vd = str(rng.choice(["egm84", "egm96", "egm2008"]))
    wrap = int(rng.integers(3))

    def op(k):
        crs = geo.make_crs(kind, ell, origin if kind == "enu" else None)
        if heights:
            crs.vdatum = geec.crs.VDatumEnum(vd)
        ds = geec.dataset.Dataset(coords=X[k].copy(), crs=crs)
        o = ds if wrap == 0 else geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds) if wrap == 1 else geec.observer.Observer(dataset=ds)
        if heights:
            o.to_lon180()
            o.to_ellipsoid_height()
        for f in seq:
            getattr(o, f)(*(origin if f == "to_enu" else ()))

    mon.event("conversions")
    if heights:
        mon.event("heights")
    # a geoid keeps a bounded cache of the cells it read
    return watch(mon, op, lambda: op(0), 1100, 120, tmp, ("convert", kind, seq, heights, wrap), dict(kind=kind, ellipsoid=ell, origin=origin, conversions=seq, heights=heights))


def case_read(i, rng, mon, tmp):
    import geec.config
    import geec.mass
    import geec.observer

    work = runs.Work("c15.")
    try:
        scene = runs.Scene(rng, work, geoids=False)
        path = scene.write()

        def op(k):
            c = geec.config.setup(path)
            geec.mass.get_masses(c)
            geec.observer.get_observer(c)
            if i % 2:
                geec.config.show(c)

        mon.event("configurations")
        return watch(mon, op, lambda: op(0), 70, 16, tmp, ("read", bool(i % 2), [m["crs"]["ref"] for m in scene.config["masses"]]), dict(config=scene.config), rate=4)
    finally:
        work.close()


def case_run(i, rng, mon, tmp):
    work = runs.Work("c15.")
    try:
        crs = dict.fromkeys(cfg.CRS_KEYS)
        crs["ref"] = ["cart", "ellps"][i % 2]
        P = gen.CUBE.tolist() if not i % 2 else [[3.0, 60.0, 0.0], [3.01, 60.0, 0.0], [3.0, 60.01, 0.0], [3.0, 60.0, 500.0]]
        o = [[3.0, 60.0, 700.0], [3.5, 61.0, 900.0]]
        C = {"masses": [{"points": P, "file_path": None, "density": 1000.0, "gravity_constant": GC, "crs": crs}], "observers": {"points": o, "file_path": None, "grid": dict.fromkeys(("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep")), "crs": {k: v for k, v in crs.items() if k != "vdatum"}}}
        path = os.path.join(work.cwd, "c.yaml")
        cfg.dump(path, C)
        args = ["run", "out.csv", "--config", path] + (["--gradient"] if (i // 2) % 2 else [])
        failing = i >= 4 and (i // 4) % 2
        if failing:
            args[3] = path + ".missing"

        import geec.api
        import geec.cli
        from click.testing import CliRunner
        from loguru import logger
        from pathlib import Path
        from typer.main import get_command

        geec.api.setup_logdir = lambda: Path(work.log)
        command = get_command(geec.cli.app)

        def op(k):
            # handlers of the log are left as the command leaves them
            r = CliRunner().invoke(command, args)
            code, err = r.exit_code, r.exception
            if (code == 0) == bool(failing):
                raise RuntimeError(f"run ended with {code}: {err!r}")

        mon.event("runs")
        if failing:
            mon.event("failures")
        return watch(mon, op, lambda: op(0), 60, 16, tmp, ("run", crs["ref"], args[-1], bool(failing)), dict(config=C, args=args), rate=4)
    finally:
        logger.remove()
        work.close()


class Odd:
    pass


def case_fail(i, rng, mon, tmp):
    """refused and failing calls"""
    import geec.crs
    import geec.dataset

    P, what = small_body(rng)
    b = grav.polyhedron(P.copy())
    st = grav.station(rng.normal(size=3) * 3)
    kind = ["flat", "not an array", "not a body", "bad station", "half way", "missing file", "list with a stranger", "bad ellipsoid"][i % 8]
    flat = rng.normal(size=(5, 3)) * [1, 1, 0]
    calls = [0]

    def attempt():
        if kind == "flat":
            grav.polyhedron(flat.copy())
        elif kind == "not an array":
            grav.polyhedron(P.tolist())
        elif kind == "not a body":
            st.compute_gravity(Odd(), 1.0, 1.0)
        elif kind == "bad station":
            b.get_gravity(np.array(["a", "b", "c"]), 1.0, 1.0, True)
        elif kind == "half way":
            b.get_gravity(np.zeros(3), Odd(), 1.0, True)
        elif kind == "missing file":
            import confuse

            c = confuse.Configuration("x", read=False)
            c.set({"points": None, "file_path": "/nonexistent/file", "crs": {"ref": "cart"}})
            geec.dataset.get_dataset(c)
        elif kind == "list with a stranger":
            st.compute_gravity([b, Odd()], 1.0, 1.0)
        else:
            geec.crs.Ellipsoid(name="no such ellipsoid")

    def op(k):
        try:
            attempt()
        except Exception:
            calls[0] += 1

    mon.event("failures")
    return watch(mon, op, lambda: op(0), 300, 60, tmp, ("fail", kind), dict(kind=kind))


def case(family, i, rng, mon):
    tmp = os.environ.get("TMPDIR") or "/tmp"
    own = os.path.join(os.environ["GV_SCRATCH"], f"tmp.{os.getpid()}.{family}.{i}")
    os.makedirs(own)
    import tempfile

    old, tempfile.tempdir = tempfile.tempdir, own
    env = os.environ.get("TMPDIR")
    os.environ["TMPDIR"] = own
    try:
        {"evaluate": case_evaluate, "build": case_build, "convert": case_convert, "read": case_read, "run": case_run, "fail": case_fail}[family](i, rng, mon, own)
    finally:
        tempfile.tempdir = old
        if env is None:
            del os.environ["TMPDIR"]
        else:
            os.environ["TMPDIR"] = env
