"""C13 a command that cannot succeed fails and leaves no result"""

import json
import os
import sys

import numpy as np

from gv import cfg, core, faults, gen, geo, grav, runs

LEVEL = "fault_enumeration"
RULE = (
    "refuse: a good configuration (1-3 masses, list/file/grid observers) is damaged in one way (missing, unreadable, binary or truncated configuration; missing, garbled, ragged or empty points "
    "file; unknown or ill-typed value; points spanning no volume; geoid grid that cannot be opened; output that cannot be written; bad arguments), at any position among good parts, and run "
    "with and without an existing result file: exit status must be non-zero and every file of the scratch tree as before. fault: a good run is made to fail (error or interrupt) at "
    "a line of the code under test, all distinct source lines (thorough: every executed line) until the field is computed and the result file is first opened for writing: same verdict. Both in this process "
    "and, sampled, in new processes. succeed: version, help, template, runs without geoid, in new processes in which opening any .pgm file fails, must succeed, open none, "
    "and the template must be accepted and run to the right result. Distinct and non-trivial by (damage, position, existing result, options) and by (faulted file, function, line, exception)."
)
ASSUMPTIONS = [
    "faults are raised between lines of the code under test; failures while the result file itself is being written are not judged",
    "a missing grid is simulated by hiding *.pgm files from open, stat, access and directory listings of the process, beside the grids really absent from the checkout",
]
REQUIRED = ["refused", "existing result kept", "fault injected", "interrupt injected", "new process", "template accepted", "no grid opened", "geoid missing", "other grids there", "user's own file", "good run succeeded"]


def setup(tier):
    geo.warm()
    grav.warm()


def plan(tier):
    if tier == "quick":
        return [("refuse", 900, 5), ("refuse_proc", 16, 1), ("fault", 40, 1), ("fault_proc", 8, 1), ("succeed", 24, 1)]
    return [("refuse", 20000, 20), ("refuse_proc", 200, 2), ("fault", 40, 1), ("fault_all", 400, 1), ("fault_proc", 60, 1), ("succeed", 200, 1)]


# --- damage ---------------------------------------------------------------------------------
def write(work, name, text):
    p = os.path.join(work.cwd, name)
    mode = "wb" if isinstance(text, bytes) else "w"
    with open(p, mode) as f:
        f.write(text)
    return name


def flat(rng):
    k = int(rng.integers(5))
    n = int(rng.integers(4, 9))
    X = np.round(rng.normal(size=(n, 3)) * 10, 3)
    if k == 0:
        X[:, 2] = 5.0
    elif k == 1:
        X[:] = X[0]
    elif k == 2:
        X = np.arange(n)[:, None] * np.array([[1.0, 2.0, -1.0]])
    elif k == 3:
        X = X[: int(rng.integers(1, 4))]
    else:
        X[:, 0] = X[0, 0]
    return X.tolist()


def points_of(c):
    """the points of a mass or observers section as rows"""
    if c.get("points"):
        return [list(map(float, r)) for r in c["points"]]
    return [[0.0, 0.0, 0.0], [1.0, 0.5, 0.0], [0.0, 1.0, 0.25], [0.3, 0.2, 1.0]]


GRIDS = ["egm84", "egm96", "egm2008"]
DAMAGE = [
    "config missing", "config not yaml", "config binary", "config a directory", "config truncated", "config unbalanced", "user file not yaml", "user file binary",
    "points file missing", "points file garbled", "points file ragged", "points file empty", "points file header", "points file a directory", "points file semicolons", "points file two columns",
    "points words", "points ragged", "points two columns", "points null",
    "flat", "flat file",
    "ref", "vdatum", "name", "origin", "axis", "density", "gravity_constant",
    "geoid", "output is a directory", "output below a file", "bad option", "no output", "bad command", "grid words", "grid no triple", "grid zero step",
]


def damage(rng, what, scene, work):
    """change the configuration so that it cannot succeed; returns extra arguments or None"""
    C = scene.config
    M = C["masses"]
    i = int(rng.integers(len(M)))
    O = C["observers"]
    t = M[i] if rng.random() < 0.6 else O
    if t is O:
        where = "observers"
    else:
        where = f"mass {i} of {len(M)}"
    if what.startswith("points file"):
        rows = [",".join(map(repr, r)) for r in points_of(t)]
        j = int(rng.integers(len(rows)))
        k = what.removeprefix("points file ")
        if k == "missing":
            name = str(rng.choice(["nowhere.csv", "no/such/dir/points.csv", "/nonexistent/points.csv"]))
        elif k == "a directory":
            name = "points.d"
            os.makedirs(os.path.join(work.cwd, name))
        else:
            if k == "garbled":
                rows[j] = str(rng.choice(["a,b,c", "1.0,2.0,x", "1.0;2.0;3.0", "1.0 2.0 3.0,,x", "0x,1,2"]))
            elif k == "ragged":
                # a longer row after a shorter one cannot be parsed
                rows = rows[:1] + [rows[-1] + ",1.0,2.0"] + rows[1:]
            elif k == "empty":
                rows = []
            elif k == "header":
                rows = ["x,y,z", *rows]
            elif k == "semicolons":
                rows = [r.replace(",", ";") for r in rows]
            elif k == "two columns":
                rows = [r.rsplit(",", 1)[0] for r in rows]
            name = write(work, "damaged.csv", "".join(r + "\n" for r in rows))
        t["points"], t["file_path"] = None, name
    elif what == "points words":
        X = points_of(t)
        X[int(rng.integers(len(X)))][int(rng.integers(3))] = str(rng.choice(["one", "1m", "", "1,5"]))
        t["points"] = X
    elif what == "points ragged":
        X = points_of(t)
        X = X + X[:1]
        X[int(rng.integers(len(X)))] = [[1.0, 2.0], [1.0], [1.0, 2.0, 3.0, 4.0]][int(rng.integers(3))]
        t["points"] = X
    elif what == "points two columns":
        t["points"] = [r[:2] for r in points_of(t)]
    elif what == "points null":
        where = f"mass {i} of {len(M)}"
        M[i]["points"], M[i]["file_path"] = [None, []][int(rng.integers(2))], None
    elif what == "flat":
        where = f"mass {i} of {len(M)}"
        X = flat(rng)
        M[i]["points"] = X
        M[i]["crs"] = dict.fromkeys(cfg.CRS_KEYS) | {"ref": "cart" if scene.cart else "ecef"}
    elif what == "flat file":
        where = f"mass {i} of {len(M)}"
        X = flat(rng)
        M[i]["points"], M[i]["file_path"] = None, write(work, "flat.csv", "".join(",".join(map(repr, r)) + "\n" for r in X))
        M[i]["crs"] = dict.fromkeys(cfg.CRS_KEYS) | {"ref": "cart" if scene.cart else "ecef"}
    elif what == "ref":
        t["crs"]["ref"] = str(rng.choice(["geo", "utm", "cartesian", "llh", "wgs84", "enuu", "local"]))
    elif what == "vdatum":
        where = f"mass {i} of {len(M)}"
        M[i]["crs"] |= {"ref": str(rng.choice(["ellps", "enu"])), "name": None, "semimajor_axis": None, "semiminor_axis": None, "longitude_origin": 1.0, "latitude_origin": 2.0, "altitude_origin": 3.0}
        M[i]["crs"]["vdatum"] = str(rng.choice(["egm2020", "navd88", "msl", "egm", "geoid", "egm9"]))
    elif what == "name":
        t["crs"] |= {"ref": str(rng.choice(["ellps", "enu"])), "semimajor_axis": None, "semiminor_axis": None, "longitude_origin": 1.0, "latitude_origin": 2.0, "altitude_origin": 3.0, "vdatum": None}
        t["crs"]["name"] = str(rng.choice(["wgs85", "earth", "airyy", "clarke", "none"]))
    elif what == "origin":
        t["crs"] |= {"ref": "enu", "longitude_origin": 1.0, "latitude_origin": 2.0, "altitude_origin": 3.0, "vdatum": None}
        t["crs"][str(rng.choice(cfg.CRS_KEYS[4:7]))] = [None, "east", [1.0], "12 E"][int(rng.integers(4))]
    elif what == "axis":
        t["crs"] |= {"ref": "ellps", "name": None, "semimajor_axis": 6378137.0, "semiminor_axis": 6356752.0, "vdatum": None}
        t["crs"][str(rng.choice(cfg.CRS_KEYS[2:4]))] = ["long", [1.0], "6378 km"][int(rng.integers(3))]
    elif what in ("density", "gravity_constant"):
        where = f"mass {i} of {len(M)}"
        M[i][what] = ["heavy", None, [1000.0], "1 kg"][int(rng.integers(4))]
    elif what == "geoid":
        where = f"mass {i} of {len(M)}"
        M[i]["crs"] = dict.fromkeys(cfg.CRS_KEYS) | {"ref": "ellps", "vdatum": str(rng.choice(["egm84", "egm96", "egm2008"]))}
        M[i]["points"] = [[3.0, 4.0, 0.0], [3.01, 4.0, 0.0], [3.0, 4.01, 0.0], [3.0, 4.0, 500.0]]
    elif what.startswith("grid"):
        where = "observers"
        O["points"], O["file_path"] = [], None
        v = {"grid words": [["a", "b", "c"], [0.0, "end", 1.0], [0.0, 1.0, "step"]], "grid no triple": [[0.0, 1.0, 1.0, 1.0], 7.0, []], "grid zero step": [[0.0, 1.0, 0], [0.0, 1.0, 0.0], [5, 7, 0]]}[what]
        O["grid"] = {k: [0.0, 1.0, 1.0] for k in cfg.GRID_KEYS}
        O["grid"][str(rng.choice(cfg.GRID_KEYS))] = v[int(rng.integers(3))]
    else:
        where = ""
    return where


def config_damage(rng, what, path, work):
    text = open(path, "rb").read() if os.path.exists(path) else b""
    if what == "config missing":
        os.remove(path)
    elif what == "config not yaml":
        open(path, "w").write(str(rng.choice(["masses: [1, 2\nobservers: }", "a: b: c: d", "\tmasses:\n\t- x", "masses:\n - points: [[0,0,0]\n", "'unclosed"])))
    elif what == "config binary":
        open(path, "wb").write(bytes(rng.integers(0, 256, 400, dtype=np.uint8)) + b"\x00\xff\xfe\x00")
    elif what == "config a directory":
        os.remove(path)
        os.mkdir(path)
    elif what == "config truncated":
        # inside the first flow collection: cannot be parsed
        k = text.index(b"[")
        open(path, "wb").write(text[: k + 1])
    elif what == "config unbalanced":
        open(path, "ab").write(b"\n]}\n")


def case_refuse(family, i, rng, mon):
    work = runs.Work("c13.")
    proc = family == "refuse_proc"
    try:
        what = DAMAGE[i % len(DAMAGE)] if not proc else DAMAGE[int(rng.integers(len(DAMAGE)))]
        scene = runs.Scene(rng, work, geoids=False, nobs=int(rng.integers(1, 4)), nmass=int(rng.integers(1, 4)))
        where = damage(rng, what, scene, work)
        path = scene.write()
        if what.startswith("config"):
            config_damage(rng, what, path, work)
        elif what.startswith("user file"):
            os.makedirs(os.path.dirname(work.user), exist_ok=True)
            config_damage(rng, what.replace("user file", "config"), work.user, work)
            mon.event("user's own file")
        arg, want = "result.csv", os.path.join(work.cwd, "result.csv")
        if rng.random() < 0.3:
            arg, want = "out/new/result", os.path.join(work.cwd, "out", "new", "result.csv")
        old = bool(rng.random() < 0.5)
        if what == "output is a directory":
            old = False
            os.makedirs(want)
            open(os.path.join(want, "keep"), "w").write("x")
        elif what == "output below a file":
            old = False
            write(work, "file", "precious\n")
            arg = str(rng.choice(["file/result.csv", "file/sub/result"]))
        elif old:
            os.makedirs(os.path.dirname(want), exist_ok=True)
            open(want, "w").write("precious old result\n1,2,3\n")
        grad = bool(rng.random() < 0.5)
        args = ["run", arg, "--config", path] + (["--gradient"] if grad else [])
        if what == "bad option":
            args = args + [str(rng.choice(["--gravity", "--density=3", "extra", "--config"]))]
        elif what == "no output":
            args = ["run", "--config", path]
        elif what == "bad command":
            args = [str(rng.choice(["compute", "runn", "topo"]))] + args[1:]
        before = work.tree()
        w = dict(damage=what, where=where, args=args, config=scene.config if what != "config missing" else None)
        if what == "geoid":
            M = next(m["crs"] for m in scene.config["masses"] if m["crs"]["vdatum"])
        if proc or what == "geoid":  # this process may hold a grid already
            pgm = False
            if what == "geoid":
                # the named grid is missing, others may be there
                pgm = True if rng.random() < 0.4 else sorted({M["vdatum"]} | set(rng.choice(GRIDS, int(rng.integers(0, 3))).tolist()))
                w["missing grids"] = pgm
                mon.event("other grids there" if pgm is not True and "egm84" not in pgm else "geoid missing")
            code, err, out = spawn(args, work, pgm=pgm)
            mon.event("new process")
        else:
            code, err, out = runs.invoke(args, work)
        after = work.tree()
        if not verdict(mon, code, before, after, err, w):
            return
        mon.event("refused")
        if old:
            mon.event("existing result kept")
        mon.evaluated(what, where, old, grad, proc, type(err).__name__)
        mon.sample({"damage": what, "where": where, "args": args, "exit": code, "error": repr(err)[-160:]})
    finally:
        work.close()


def verdict(mon, code, before, after, err, w):
    if code == 0:
        mon.violate(f"the command succeeded although it cannot ({w.get('damage') or w.get('fault')})", changed=[k for k in after if before.get(k) != after[k]], **w)
        return False
    changed = [k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)]
    if changed:
        mon.violate(f"the command failed but left or changed {changed} ({w.get('damage') or w.get('fault')})", error=repr(err)[-500:], content={k: repr(after.get(k))[:300] for k in changed}, **w)
        return False
    return True


# --- injected faults ------------------------------------------------------------------------
class Opened:
    """observes when the result file is first opened for writing"""

    def __init__(self):
        self.path = None
        self.seen = False
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if self.path and event == "open" and not self.seen:
            p, mode, flags = args
            try:
                if isinstance(p, (str, os.PathLike)) and os.path.abspath(os.fspath(p)).startswith(self.path) and ((isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
                    self.seen = True
            except Exception:
                pass


_opened = None
KERNEL = ("polyhedron.py", "station.py")


def trace(fn, opened):
    """lines executed by a good run: list of (file, function, line); index of the last line that may be faulted"""
    lines, last, first_write = [], 0, None

    def local(frame, event, arg):
        nonlocal last, first_write
        if event == "line":
            if opened.seen and first_write is None:
                first_write = len(lines)
            f = os.path.basename(frame.f_code.co_filename)
            lines.append((f, frame.f_code.co_name, frame.f_lineno))
            if f in KERNEL:
                last = len(lines)
        return local

    def tracer(frame, event, arg):
        if event == "call" and faults._mine(frame.f_code):
            return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        value = fn()
    finally:
        sys.settrace(old)
    limit = max(last, (len(lines) if first_write is None else first_write) - 1)
    return value, lines, limit


def fault_scene(work, variant):
    """a small run; variant: system and options"""
    kinds = ["cart", "ellps", "enu", "ecef"]
    kind = kinds[variant % 4]
    grad = bool(variant // 4 % 2)
    P = np.array([(0.1, 0, 0), (1.3, 0.2, 0), (0.2, 0.9, 0.1), (0.3, 0.4, 1.1)]) * 100
    c = dict.fromkeys(cfg.CRS_KEYS) | {"ref": kind}
    if kind == "ellps":
        X = np.c_[P[:, 0] / 1e5 + 364, P[:, 1] / 1e5 + 50, P[:, 2]]
        c |= {"vdatum": "egm84", "name": "bessel"}
        o = [[4.0, 50.001, 300.0], [4.01, 50.0, 1000.0]]
    elif kind == "enu":
        X = P
        c |= {"longitude_origin": 4.0, "latitude_origin": 50.0, "altitude_origin": 10.0}
        o = [[10.0, 20.0, 300.0], [500.0, 0.0, 1000.0]]
    else:
        X = P + (0 if kind == "cart" else 4e6)
        o = (np.array([[10.0, 20.0, 300.0], [500.0, 0.0, 1000.0]]) + (0 if kind == "cart" else 4e6)).tolist()
    m = {"points": X.tolist(), "file_path": None, "density": 1000.0, "gravity_constant": 6.67408e-11, "crs": c}
    C = {"masses": [m], "observers": {"points": o, "file_path": None, "grid": dict.fromkeys(cfg.GRID_KEYS, [0.0, 1.0, 1.0]), "crs": dict(c)}}
    if variant // 8 % 2:
        C["masses"][0] |= {"points": None, "file_path": write(work, "m.csv", "".join(",".join(map(repr, r)) + "\n" for r in X.tolist()))}
        C["observers"] |= {"points": [], "file_path": write(work, "o.csv", "".join(",".join(map(repr, r)) + "\n" for r in o))}
    p = os.path.join(work.cwd, "config.yaml")
    cfg.dump(p, C)
    return C, p, grad, kind


NV = 8


def case_fault(family, i, rng, mon):
    global _opened
    if _opened is None:
        _opened = Opened()
    work = runs.Work("c13.")
    try:
        variant = i % NV if family == "fault" else i % (2 * NV)
        part, parts = (i // NV, 5) if family == "fault" else (i // (2 * NV), 25)
        C, path, grad, kind = fault_scene(work, variant)
        want = os.path.join(work.cwd, "out.csv")
        args = ["run", "out.csv", "--config", path] + (["--gradient"] if grad else [])

        def go():
            return runs.invoke(args, work)

        _opened.path, _opened.seen = os.path.abspath(work.cwd) + os.sep, False
        go()  # caches
        os.path.exists(want) and os.remove(want)
        _opened.seen = False
        (code, err, _), lines, limit = trace(go, _opened)
        _opened.path = None
        w = dict(config=C, args=args)
        if code != 0 or not os.path.isfile(want):
            mon.violate(f"good run failed: exit {code}, {err!r}", **w)
            return
        mon.event("good run succeeded")
        if not runs.check_result(mon, want, [C], work.cwd, grad, w):
            return
        os.remove(want)
        if family == "fault":
            first, last = {}, {}
            for k in range(limit):
                first.setdefault(lines[k], k + 1)
                last[lines[k]] = k + 1
            ks = sorted((first if (variant + variant // 4) % 2 else last).values())
        else:
            ks = list(range(1, limit + 1))
        for n, k in enumerate(ks):
            if n % parts != part:
                continue
            old = bool((n // parts + i) % 2)
            intr = n % 7 == 3
            if old:
                open(want, "w").write("precious old result\n1,2,3\n")
            elif os.path.exists(want):
                os.remove(want)
            before = work.tree()
            box = []
            faults.run(lambda: box.append(go()), k, faults.InjectedInterrupt if intr else faults.InjectedError)
            if not box:
                # the injected interrupt ended the command before click could turn it into a status
                code, err = 1, None
            else:
                code, err, _ = box[0]
            f, fn, ln = lines[k - 1]
            mon.event("interrupt injected" if intr else "fault injected")
            if not verdict(mon, code, before, work.tree(), err, dict(fault=f"{'interrupt' if intr else 'error'} at {f}:{ln} in {fn}, executed line {k} of {limit}", **w)):
                return
            if old:
                mon.event("existing result kept")
            mon.evaluated(f, fn, ln, intr, kind, grad)
        mon.sample({"system": kind, "gradient": grad, "lines executed": len(lines), "judged until": limit, "faults": len(ks[part::parts])})
    finally:
        if _opened is not None:
            _opened.path = None
        work.close()


# --- new processes --------------------------------------------------------------------------
BOOT = """
import json, os, sys
spec = json.loads(os.environ["GV_SPEC"])
written = []
def hook(event, args):
    if event == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
        p = os.fsdecode(os.fspath(args[0]))
        if os.path.basename(p).startswith("out.csv"):
            written.append(p)
        if p.endswith(".pgm"):
            with_log(p)
            if spec["pgm"] is True or (spec["pgm"] and os.path.basename(p).startswith(tuple(spec["pgm"]))):
                raise FileNotFoundError(2, "No such file or directory", p)
def with_log(p):
    fd = os.open(spec["log"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, (p + chr(10)).encode())
    os.close(fd)
sys.addaudithook(hook)
if spec["pgm"]:
    # such grids are not there at all
    def hidden(p):
        if not isinstance(p, (str, bytes, os.PathLike)):
            return False
        n = os.path.basename(os.fsdecode(os.fspath(p)))
        return ".pgm" in n and (spec["pgm"] is True or n.startswith(tuple(spec["pgm"])))
    def hide(name):
        real = getattr(os, name)
        def f(p, *args, **kwargs):
            if hidden(p):
                if name == "access":
                    return False
                raise FileNotFoundError(2, "No such file or directory", os.fsdecode(os.fspath(p)))
            return real(p, *args, **kwargs)
        setattr(os, name, f)
    for name in ("stat", "lstat", "access"):
        hide(name)
    listdir, scandir = os.listdir, os.scandir
    os.listdir = lambda *a: [x for x in listdir(*a) if not hidden(x)]
    class scandir_(list):
        def __init__(self, *a):
            with scandir(*a) as it:
                super().__init__(x for x in it if not hidden(x.name))
        def __iter__(self):
            return iter(self[:])
        def __next__(self):
            if not self:
                raise StopIteration
            return self.pop(0)
        def __enter__(self):
            return self
        def __exit__(self, *a):
            pass
        def close(self):
            pass
    os.scandir = scandir_
import geec.api
from pathlib import Path
geec.api.setup_logdir = lambda: Path(spec["logdir"])
if spec["k"]:
    n = 0
    seen = {}
    def mine(code):
        f = code.co_filename
        if f not in seen:
            seen[f] = os.path.realpath(f).startswith(spec["pkg"])
        return seen[f]
    def local(frame, event, arg):
        global n
        if event == "line":
            n += 1
            if n == spec["k"] and not written:
                with_log("fault")
                raise {"MemoryError": MemoryError, "OSError": OSError, "ValueError": ValueError, "KeyError": KeyError, "KeyboardInterrupt": KeyboardInterrupt}[spec["exc"]]("injected")
        return local
    def tracer(frame, event, arg):
        if event == "call" and mine(frame.f_code):
            return local
    from geec import cli
    sys.settrace(tracer)
from geec import cli
sys.argv[0] = "geec"
cli.app()
"""


def spawn(args, work, pgm=False, k=0, exc="ValueError"):
    spec = {"pgm": pgm, "log": os.path.join(work.log, "opened"), "logdir": work.log, "pkg": core.PKG, "k": k, "exc": exc}
    return runs.spawn(args, work, env={"GV_SPEC": json.dumps(spec)}, code=BOOT)


def opened_grids(work):
    p = os.path.join(work.log, "opened")
    return open(p).read().split() if os.path.exists(p) else []


def case_fault_proc(family, i, rng, mon):
    """the exit status a shell sees, for a fault at a random line"""
    work = runs.Work("c13.")
    try:
        C, path, grad, kind = fault_scene(work, int(rng.integers(2 * NV)))
        want = os.path.join(work.cwd, "out.csv")
        open(want, "w").write("precious old result\n1,2,3\n")
        args = ["run", "out.csv", "--config", path] + (["--gradient"] if grad else [])
        k = int(rng.integers(1, 300))
        exc = str(rng.choice(["MemoryError", "OSError", "ValueError", "KeyError", "KeyboardInterrupt"]))
        before = work.tree()
        code, err, out = spawn(args, work, k=k, exc=exc)
        mon.event("new process")
        if not opened_grids(work).count("fault"):
            mon.event("over before the fault")
            return
        if not verdict(mon, code, before, work.tree(), err, dict(fault=f"{exc} at executed line {k}", config=C, args=args)):
            return
        mon.event("fault injected")
        mon.evaluated("process", kind, grad, exc, k)
        mon.sample({"system": kind, "fault": f"{exc} at executed line {k}", "exit": code})
    finally:
        work.close()


# --- conversely -----------------------------------------------------------------------------
def case_succeed(family, i, rng, mon):
    work = runs.Work("c13.")
    try:
        what = ["version", "template", "template named", "run", "help", "run", "template named", "run"][i % 8]
        w = dict(what=what)

        def ok(args):
            code, err, out = spawn(args, work, pgm=True)
            mon.event("new process")
            if code != 0:
                mon.violate(f"{what}: {args} failed with status {code} where no geoid grid can be read", stderr=err, **w)
                return None
            g = opened_grids(work)
            if g:
                mon.violate(f"{what}: {args} reads geoid grids it does not use: {g}", **w)
                return None
            mon.event("no grid opened")
            return out

        if what == "version":
            out = ok(["--version"])
            if out is not None and not out.strip():
                mon.violate("--version prints nothing", **w)
            mon.evaluated(what)
        elif what == "help":
            for args in (["--help"], ["run", "--help"], ["config", "--help"]):
                if ok(args) is None:
                    return
            mon.evaluated(what)
        elif what == "run":
            scene = runs.Scene(rng, work, geoids=False)
            path = scene.write()
            grad = bool(rng.random() < 0.5)
            args = ["run", "new/out", "--config", path] + (["--gradient"] if grad else [])
            if ok(args) is None:
                return
            want = os.path.join(work.cwd, "new", "out.csv")
            if not os.path.isfile(want):
                mon.violate("no result file", config=scene.config, **w)
                return
            if runs.check_result(mon, want, [scene.config], work.cwd, grad, dict(config=scene.config, args=args, **w)):
                mon.event("good run succeeded")
                mon.evaluated(what, [m["crs"]["ref"] for m in scene.config["masses"]], grad)
        else:
            form = [("t", "t.yaml"), ("t.yaml", "t.yaml"), ("t.yml", "t.yaml"), (os.path.join(work.dir, "abs"), os.path.join(work.dir, "abs.yaml")), ("~/x", os.path.join(os.environ["HOME"], "x.yaml")), ("./sub/t", "sub/t.yaml")]
            arg, want = form[int(rng.integers(len(form)))] if what == "template named" else (None, "config_template.yaml")
            want = os.path.join(work.cwd, want)
            os.makedirs(os.path.join(work.cwd, "sub"), exist_ok=True)
            before = work.tree()
            if ok(["config"] + (["--output", arg] if arg else [])) is None:
                return
            after = work.tree()
            new = [k for k in after if after[k] != before.get(k)]
            if new != [os.path.relpath(want, work.dir)]:
                mon.violate(f"template command wrote {new}, not {want}", **w)
                return
            layer = cfg.load(want)
            if not isinstance(layer, dict) or not layer.get("masses") or not layer.get("observers"):
                mon.violate("the template is not a configuration", text=after[new[0]][:2000].decode(errors="replace"), **w)
                return
            grad = bool(rng.random() < 0.5)
            if ok(["run", "out.csv", "--config", want] + (["--gradient"] if grad else [])) is None:
                return
            # keys absent from the template take packaged values
            default = cfg.load(os.path.join(core.REPO, "geec", "cfg", "config_default.yaml"))
            try:
                cfg.masses([layer, default], work.cwd), cfg.observers([layer, default], work.cwd)
            except cfg.Undecided:
                mon.event("template result not judged")
            except cfg.Refused as exc:
                mon.violate(f"the template is not an accepted configuration: {exc}", **w)
                return
            else:
                if not runs.check_result(mon, os.path.join(work.cwd, "out.csv"), [layer, default], work.cwd, grad, w):
                    return
            mon.event("template accepted")
            mon.evaluated(what, arg, grad)
        mon.sample({"what": what})
    finally:
        work.close()


def case(family, i, rng, mon):
    if family.startswith("refuse"):
        case_refuse(family, i, rng, mon)
    elif family == "fault_proc":
        case_fault_proc(family, i, rng, mon)
    elif family.startswith("fault"):
        case_fault(family, i, rng, mon)
    else:
        case_succeed(family, i, rng, mon)
