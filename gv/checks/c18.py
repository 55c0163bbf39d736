"""C18 independent work done at the same time does not interfere"""

import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

import numpy as np

from gv import core, gen, geo, grav, runs

LEVEL = "exploration"
RULE = (
    "sched: 2-4 threads, each with objects of its own (bodies and stations, datasets converted or given heights, configurations and points read), take turns at random source lines of the package and of the libraries it "
    "calls, chosen by a seeded scheduler; stress: 6 free-running threads with a switch interval of 1 us; fork: processes forked while the package is in use do the same work at once; commands: 2-4 run, config and failing "
    "commands at once in one directory (same log directory, output directory still missing) with random delays at source lines and before every file operation; cold: threads start work in a new process in which "
    "nothing is loaded or compiled; install: commands at once on a package whose log directory does not exist. Every result is compared bit for bit with that of the same work done alone. Distinct and non-trivial by "
    "the work of each thread and the interleaving (sequence of switches)."
)
ASSUMPTIONS = ["no object is used by two threads at the same time (nothing promises that)", "no two commands write to the same path", "commands run in processes of their own, not in threads"]
REQUIRED = ["switches", "result compared", "threads at once", "processes at once", "commands at once", "refused at once", "cold start", "missing log directory", "gravity", "convert", "heights", "config", "bodies"]

GC = 6.67408e-11
WORKS = ("gravity", "convert", "heights", "config", "bodies")


def setup(tier):
    runs.prepare()


def plan(tier):
    if tier == "quick":
        return [("sched", 260, 5), ("stress", 32, 2), ("fork", 32, 2), ("commands", 60, 2), ("cold", 4, 1), ("install", 3, 1)]
    return [("sched", 8000, 10), ("stress", 800, 4), ("fork", 600, 4), ("commands", 1500, 5), ("cold", 40, 1), ("install", 24, 1)]


# --- work -----------------------------------------------------------------------------------
def make_gravity(rng, work):
    items = []
    for _ in range(int(rng.integers(1, 4))):
        P, _, _ = gen.body_points(rng)
        if len(P) > 40:
            P = P[:40]
        c, s = P.mean(axis=0), float(np.ptp(P, axis=0).max())
        S = c + rng.normal(size=(int(rng.integers(1, 4)), 3)) * s
        if rng.random() < 0.3:
            S[0] = P[0]
        items.append((P, S, *gen.physics(rng), bool(rng.random() < 0.6)))

    def go():
        out = []
        for P, S, rho, gc, grad in items:
            body = grav.polyhedron(P.copy())
            for x in S:
                st = grav.station(x.copy())
                st.compute_gravity(body, rho, gc, gradient=grad)
                st.compute_gravity([body, body], rho, gc, gradient=grad)
                out += [st.G.copy(), st.T.copy(), *(np.array(v) for v in body.get_gravity(x.copy(), rho, gc, grad))]
        return out

    return go


def make_bodies(rng, work):
    Ps = []
    for _ in range(int(rng.integers(2, 6))):
        P, _, _ = gen.body_points(rng)
        Ps.append(P[:40])

    def go():
        out = []
        for P in Ps:
            body = grav.polyhedron(P.copy())
            out += [np.array(body.points), np.array([f.un for f in body.faces]), np.array([[e.vector for e in f.edges] for f in body.faces])]
        return out

    return go


def dataset(kind, ell, origin, vdatum, X):
    import geec.dataset

    return geec.dataset.Dataset(coords=X.copy(), crs=geo.make_crs(kind, ell, origin, vdatum))


def state(ds):
    return [np.array(ds.coords, dtype=float), np.frombuffer(f"{geo.name_of(ds.crs)}/{ds.crs.vdatum}/{ds.crs.ellps}/{ds.crs.enu}".encode(), np.uint8).astype(float)]


def make_convert(rng, work):
    items = []
    for _ in range(int(rng.integers(1, 4))):
        kind = str(rng.choice(["ellps", "enu", "ecef", "cart"], p=[0.5, 0.2, 0.2, 0.1]))
        ell = geo.some_ellipsoid(rng)
        ops = [(str(rng.choice(["to_lon180", "to_ecef", "to_wgs84", "to_enu"])), geo.some_origin(rng)) for _ in range(int(rng.integers(1, 5)))]
        items.append((kind, ell, geo.some_origin(rng) if kind == "enu" else None, geo.some_points(rng, kind, int(rng.integers(1, 6)), ell), ops))

    def go():
        out = []
        for kind, ell, origin, X, ops in items:
            ds = dataset(kind, ell, origin, "ellps", X)
            for op, o in ops:
                getattr(ds, op)(*(o if op == "to_enu" else ()))
                out += state(ds)
        return out

    return go


def make_heights(rng, work):
    items = []
    vd = str(rng.choice(["egm84", "egm84", "egm96", "egm2008"]))
    for _ in range(int(rng.integers(1, 4))):
        X = geo.some_points(rng, "ellps", int(rng.integers(1, 12)))
        items.append((vd if rng.random() < 0.8 else "egm84", geo.some_ellipsoid(rng), X))

    def go():
        out = []
        for vd, ell, X in items:
            ds = dataset("ellps", ell, None, vd, X)
            ds.to_lon180()
            ds.to_ellipsoid_height()
            out += state(ds)
        return out

    return go


def make_config(rng, work):
    work.count = getattr(work, "count", 0) + 1
    scene = runs.Scene(rng, work, nmass=int(rng.integers(1, 4)))
    # points in files: of this scene only
    path = scene.write(f"config{work.count}.yaml")

    def go():
        import geec.config
        import geec.mass
        import geec.observer

        config = geec.config.setup(path)
        ms = geec.mass.get_masses(config)
        out = []
        for m in ms:
            out += [np.array([m.density, m.gravity_constant]), *state(m.dataset)]
        return out + state(geec.observer.get_observer(config).dataset)

    return go


def some_work(rng, work, what=None):
    what = what or str(rng.choice(WORKS))
    return what, globals()["make_" + what](rng, work)


def same(A, B):
    return len(A) == len(B) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) for a, b in zip(A, B))


def guarded(go):
    try:
        with np.errstate(all="ignore"):
            return go()
    except Exception as exc:
        return exc


def judge(mon, what, got, alone, **w):
    """True if the result of the work is that of the same work done alone"""
    for name, g, a in zip(what, got, alone):
        mon.event("result compared")
        mon.event(name)
        if isinstance(a, Exception):
            raise a
        if isinstance(g, Exception):
            mon.violate(f"{name}: failed while other work was going on: {g!r}", together=what, **w)
            return False
        if g is None or not same(g, a):
            k = next((k for k, (x, y) in enumerate(zip(g or [], a)) if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True)), 0)
            mon.violate(f"{name}: result differs from that of the same work done alone", together=what, here=g[k] if g else None, alone=a[k], **w)
            return False
    return True


# --- threads --------------------------------------------------------------------------------
_traced = {}


def traced(code):
    r = _traced.get(code.co_filename)
    if r is None:
        f = os.path.realpath(code.co_filename)
        r = _traced[code.co_filename] = 1 if f.startswith(core.PKG) else 2 if any(f"{os.sep}{m}{os.sep}" in f for m in ("pygeodesy", "pymap3d", "confuse")) else 0
    return r


class Turns:
    """threads run one at a time and hand over at random lines"""

    def __init__(self, n, rng, p):
        self.n, self.p = n, p
        self.rngs = [np.random.default_rng(int(rng.integers(2**62))) for _ in range(n)]
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.switches = []

    def hand_over(self, k, where):
        others = [j for j in list(self.alive) if j != k]
        if not others:
            return
        j = others[int(self.rngs[k].integers(len(others)))]
        self.switches.append((k, j, where))
        self.sem[j].release()
        # the other one may wait for something this one holds: do not wait for ever
        self.sem[k].acquire(timeout=0.05)

    def end(self, k):
        self.alive.remove(k)
        for j in list(self.alive)[:1]:
            self.sem[j].release()

    def run(self, k, go):
        rng, p = self.rngs[k], self.p
        draws = iter(())

        def local(frame, event, arg):
            nonlocal draws
            if event == "line":
                d = next(draws, None)
                if d is None:
                    draws = iter(rng.random(4096))
                    d = next(draws)
                if d < (p if traced(frame.f_code) == 1 else p / 3):
                    self.hand_over(k, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def tracer(frame, event, arg):
            return local if traced(frame.f_code) else None

        if k:
            self.sem[k].acquire(timeout=2)
        sys.settrace(tracer)
        try:
            return guarded(go)
        finally:
            sys.settrace(None)
            self.end(k)


def together(n, run):
    """run(k) in n threads at once"""
    got = [None] * n

    def target(k):
        try:
            got[k] = run(k)
        except BaseException as exc:
            got[k] = RuntimeError(f"{exc!r}")

    ts = [threading.Thread(target=target, args=(k,), daemon=True) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return got


def case_sched(rng, mon):
    work = runs.Work("c18.")
    try:
        n = int(rng.integers(2, 5))
        first = str(rng.choice(WORKS))
        what, gos = zip(*[some_work(rng, work, first if rng.random() < 0.6 else None) for _ in range(n)])
        before = rng.random() < 0.5
        if before:
            alone = [guarded(go) for go in gos]
        turns = Turns(n, rng, float(rng.choice([0.02, 0.1, 0.3])))
        got = together(n, lambda k: turns.run(k, gos[k]))
        if not before:
            alone = [guarded(go) for go in gos]
        mon.event("switches", len(turns.switches))
        mon.event("threads at once", n)
        if judge(mon, what, got, alone, switches=turns.switches[-60:]):
            mon.evaluated(what, hashlib.blake2b(repr(turns.switches).encode(), digest_size=8).hexdigest())
            mon.sample({"threads": what, "switches": len(turns.switches), "first": turns.switches[:4]})
    finally:
        work.close()


def case_stress(rng, mon):
    work = runs.Work("c18.")
    try:
        n = 6
        first = str(rng.choice(WORKS))
        what, gos = zip(*[some_work(rng, work, first if rng.random() < 0.6 else None) for _ in range(n)])
        alone = [guarded(go) for go in gos]
        barrier = threading.Barrier(n)
        rounds = 4

        def run(k):
            barrier.wait(60)
            return [guarded(gos[k]) for _ in range(rounds)]

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            got = together(n, run)
        finally:
            sys.setswitchinterval(old)
        mon.event("threads at once", n)
        for g in got:
            if isinstance(g, Exception):
                raise g
        for r in range(rounds):
            if not judge(mon, what, [g[r] for g in got], alone, round=r):
                return
            mon.evaluated("free running", what, r)
    finally:
        work.close()


# --- processes ------------------------------------------------------------------------------
class Children:
    """forked processes that start together"""

    def __init__(self):
        self.r, self.w = os.pipe()
        self.pids = []

    def fork(self, fn):
        pid = os.fork()
        if pid:
            self.pids.append(pid)
            return
        code = 99
        try:
            import signal

            signal.alarm(0)
            os.close(self.w)
            os.read(self.r, 1)  # returns when the parent has closed its end
            code = fn()
        finally:
            os._exit(code)

    def start(self):
        os.close(self.r)
        os.close(self.w)

    def wait(self):
        return [os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) for pid in self.pids]


def case_fork(rng, mon):
    work = runs.Work("c18.")
    try:
        n = 3
        first = str(rng.choice(WORKS, p=[0.2, 0.2, 0.4, 0.1, 0.1]))
        what, gos = zip(*[some_work(rng, work, first if rng.random() < 0.7 else None) for _ in range(n)])
        # the package is in use before the fork
        alone = [guarded(go) for go in gos]
        rounds = 12
        ch = Children()
        for k, go in enumerate(gos):

            def fn(k=k, go=go):
                got = [guarded(go) for _ in range(rounds)]
                bad = next((g for g in got if isinstance(g, Exception) or not same(g, alone[k])), None)
                if bad is not None:
                    with open(os.path.join(work.dir, f"bad{k}.json"), "w") as f:
                        json.dump(core.jsonable(repr(bad) if isinstance(bad, Exception) else bad), f)
                return 3 if bad is not None else 0

            ch.fork(fn)
        ch.start()
        mine = [guarded(go) for go in gos]
        codes = ch.wait()
        mon.event("processes at once", n + 1)
        if not judge(mon, what, mine, alone):
            return
        for k, c in enumerate(codes):
            mon.event("result compared", rounds)
            if c == 3:
                mon.violate(f"{what[k]}: result in a forked process differs from that of the same work done alone", together=what, there=json.load(open(os.path.join(work.dir, f"bad{k}.json"))), alone=alone[k])
                return
            if c:
                raise RuntimeError(f"forked process ended with {c}")
        mon.evaluated("fork", what, int(rng.integers(2**40)))
    finally:
        work.close()


def delays(rng, most, place, others):
    """sleep before file operations and at lines of the package, in this process from now on; meet the others before the first file operation in a place"""
    busy = False
    met = False

    def meet():
        nonlocal met
        met = True
        t = time.monotonic()
        while len(os.listdir(place + ".here")) < others and time.monotonic() < t + 0.4:
            time.sleep(0.0005)

    def nap(p):
        nonlocal busy
        if not busy and rng.random() < p:
            busy = True
            time.sleep(float(rng.uniform(0, most)))
            busy = False

    def hook(event, args):
        nonlocal met
        if event in ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "shutil.move", "shutil.copyfile"):
            if event != "open" or (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                if not met and str(args[0]).startswith(place + os.sep):
                    met = True
                    open(os.path.join(place + ".here", str(os.getpid())), "w").close()
                    meet()
                nap(0.7)

    sys.addaudithook(hook)
    names = ("api.py", "cli.py")

    def local(frame, event, arg):
        if event == "line":
            nap(0.25)
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        return local if os.path.basename(f) in names and traced(frame.f_code) else None

    sys.settrace(tracer)


def some_commands(rng, work, n):
    """[(name, arguments with a place for the directory of the results, path of the result or None, succeeds)]"""
    out = []
    shared = runs.Scene(rng, work, nobs=int(rng.integers(1, 5)))
    paths = [shared.write("shared.yaml")]
    sub = str(rng.choice(["", "deep", "deep/er"]))
    for k in range(n):
        r = rng.random()
        if k and r < 0.2:
            rel = os.path.join(sub, f"template{k}.yaml")
            out.append(("config", ["config", "--output", "{}/" + (f"template{k}" if not sub else rel)], f"template{k}.yaml" if not sub else rel, True))
            continue
        if r < 0.35:
            p = os.path.join(work.cwd, f"bad{k}.yaml")
            with open(p, "w") as f:
                f.write(["masses: [", "observers:\n  points: [[1.0, 2.0, 3.0]]\n  crs: {ref: nowhere}\n"][int(rng.integers(2))])
            out.append(("refused", ["run", f"{{}}/{sub}/never{k}.csv", "--config", p], None, False))
            continue
        if rng.random() < 0.5:
            p = paths[0]
        else:
            p = runs.Scene(rng, work, nobs=int(rng.integers(1, 30)), nmass=int(rng.integers(1, 3))).write(f"own{k}.yaml")
        rel = os.path.normpath(os.path.join(sub, f"r{k}.csv"))
        out.append(("run", ["run", "{}/" + (rel if rng.random() < 0.5 else rel[:-4]), "--config", p, *(["--gradient"] if rng.random() < 0.5 else [])], rel, True))
    return out


def files(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(base, f), "rb") as fh:
                out[os.path.relpath(os.path.join(base, f), d)] = fh.read()
    return out


def with_place(args, d):
    return [a.replace("{}", d) for a in args]


def compare_files(mon, cmds, codes, A, B, w):
    for (name, args, rel, ok), c in zip(cmds, codes):
        mon.event("result compared")
        if ok and c:
            mon.violate(f"{name}: exit status {c} while other commands were running", command=args, **w)
            return False
        if not ok and not c:
            mon.violate(f"{name}: refused command succeeded while others were running", command=args, **w)
            return False
        if ok and rel not in B:
            mon.violate(f"{name}: no result, other commands were running", command=args, files=sorted(B), **w)
            return False
        if ok and A[rel] != B[rel]:
            mon.violate(f"{name}: the result differs from that of the same command alone", command=args, alone=A[rel].decode(errors="replace")[:1500], here=B[rel].decode(errors="replace")[:1500], **w)
            return False
    if set(B) != set(A):
        mon.violate("commands at once leave other files than one after the other", alone=sorted(A), here=sorted(B), **w)
        return False
    return True


def case_commands(rng, mon):
    work = runs.Work("c18.")
    try:
        n = int(rng.integers(2, 5))
        cmds = some_commands(rng, work, n)
        a, b = os.path.join(work.dir, "alone"), os.path.join(work.dir, "together")
        made = rng.random() < 0.5 or any(c[0] == "config" for c in cmds)
        for d in (a, b):
            if made:
                # the template command does not promise to create directories
                os.makedirs(os.path.join(d, "deep", "er"))
        for name, args, rel, ok in cmds:
            code, exc, out = runs.invoke(with_place(args, a), work)
            if bool(code) == ok:
                mon.violate(f"{name}: exit status {code}: {exc!r}", command=args)
                return
        ch = Children()
        os.makedirs(b + ".here")
        others = sum(c[3] for c in cmds)
        seeds = rng.integers(2**62, size=n)
        for (name, args, rel, ok), s in zip(cmds, seeds):

            def fn(args=args, s=int(s)):
                delays(np.random.default_rng(s), 0.004, b, others)
                code, exc, out = runs.invoke(with_place(args, b), work)
                sys.settrace(None)
                return 1 if code else 0

            ch.fork(fn)
        ch.start()
        codes = ch.wait()
        mon.event("commands at once", n)
        mon.event("refused at once", sum(not c[3] for c in cmds))
        w = dict(commands=[c[1] for c in cmds], codes=codes, directory_existed=made)
        if 99 in codes or any(c < 0 for c in codes):
            raise RuntimeError(f"process ended with {codes}")
        if compare_files(mon, cmds, codes, files(a), files(b), w):
            mon.evaluated("commands", [c[0] for c in cmds], made, seeds.tolist())
            mon.sample({"commands": [c[1] for c in cmds], "codes": codes})
    finally:
        work.close()


# --- new processes --------------------------------------------------------------------------
def cold_work(seed, i, work):
    rng = np.random.default_rng([seed, 1818, i])
    return zip(*[some_work(rng, work, w) for w in ("gravity", "gravity", "heights", "heights", "convert", "config", "bodies")])


def cold():
    """in a new process: threads start work before anything is loaded"""
    spec = json.loads(os.environ["GV_SPEC"])
    from loguru import logger

    from gv import geod

    logger.remove()
    geod.install(os.environ["GV_SCRATCH"])
    import pymap3d as pm

    for k, v in pm.Ellipsoid.models.items():
        geo.ELL[k] = (float(v["a"]), float(v["b"]))
    work = runs.Work("c18.")
    what, gos = cold_work(spec["seed"], spec["i"], work)
    sys.setswitchinterval(1e-5)
    got = together(len(gos), lambda k: guarded(gos[k]))
    out = {}
    for k, g in enumerate(got):
        if isinstance(g, Exception):
            out[f"{k}_error"] = np.frombuffer(repr(g).encode(), np.uint8)
        else:
            out.update({f"{k}_{j:05d}": x for j, x in enumerate(g)})
    np.savez(spec["out"], **out)
    work.close()


def case_cold(i, rng, mon):
    work = runs.Work("c18.")
    try:
        out = os.path.join(work.dir, "cold.npz")
        spec = dict(seed=core._seed, i=i, out=out)
        # configurations of the two processes need the same names: same places inside different directories do not matter to the result
        what, gos = cold_work(core._seed, i, work)
        e = dict(os.environ, PYTHONPATH=core.VERIF + os.pathsep + core.REPO, GV_SPEC=json.dumps(spec))
        r = subprocess.run([sys.executable, "-c", "from gv.checks import c18; c18.cold()"], env=e, cwd=os.environ["GV_SCRATCH"], capture_output=True, text=True, timeout=190)
        if r.returncode or not os.path.exists(out):
            raise RuntimeError(r.stderr[-2000:])
        alone = [guarded(go) for go in gos]
        z = np.load(out)
        got = []
        for k in range(len(gos)):
            if f"{k}_error" in z:
                got.append(RuntimeError(bytes(z[f"{k}_error"]).decode()))
            else:
                got.append([z[f] for f in sorted(f for f in z.files if f.startswith(f"{k}_"))])
        mon.event("cold start")
        mon.event("threads at once", len(gos))
        if judge(mon, what, got, alone, where="new process"):
            mon.evaluated("cold", i)
    finally:
        work.close()


BOOT = """
import os, sys, time, random
import typer.main, pandas, numpy, confuse, loguru, pymap3d, pygeodesy
import geec.cli
r = random.Random(int(os.environ["GV_DELAY"]))
def hook(event, args):
    if event in ("os.mkdir", "os.rename", "os.remove"):
        time.sleep(r.uniform(0, 0.05))
sys.addaudithook(hook)
t = float(os.environ["GV_START"])
open(os.environ["GV_READY"], "w").close()
while not os.path.exists(os.environ["GV_GO"]):
    time.sleep(0.002)
sys.argv[0] = "geec"
geec.cli.app()
"""


def case_install(i, rng, mon):
    """a package whose log directory does not exist, and several commands at once"""
    work = runs.Work("c18.")
    try:
        root = os.path.join(work.dir, "install")
        shutil.copytree(os.path.join(core.REPO, "geec"), os.path.join(root, "geec"), ignore=shutil.ignore_patterns("__pycache__"))
        a, b = os.path.join(work.dir, "alone"), os.path.join(work.dir, "together")
        os.makedirs(a)
        scenes = [runs.Scene(rng, work, geoids=False, nobs=2, nmass=1).write(f"s{k}.yaml") for k in range(4)]
        cmds = [("run", ["run", f"{{}}/deep/r{k}.csv", "--config", p, "--gradient"], f"deep/r{k}.csv", True) for k, p in enumerate(scenes)]
        for name, args, rel, ok in cmds:
            code, exc, out = runs.invoke(with_place(args, a), work)
            if code:
                mon.violate(f"{name}: exit status {code}: {exc!r}", command=args)
                return
        go = os.path.join(work.dir, "go")
        ps, ready = [], []
        for k, (name, args, rel, ok) in enumerate(cmds):
            ready.append(os.path.join(work.dir, f"ready{k}"))
            e = dict(os.environ, PYTHONPATH=root, GV_DELAY=str(int(rng.integers(2**31))), GV_START="0", GV_READY=ready[-1], GV_GO=go)
            with open(os.path.join(work.dir, f"err{k}"), "w") as f:
                ps.append(subprocess.Popen([sys.executable, "-c", BOOT, *with_place(args, b)], cwd=work.cwd, env=e, stdout=subprocess.DEVNULL, stderr=f))
        try:
            t = time.monotonic()
            while not all(map(os.path.exists, ready)) and time.monotonic() < t + 100 and all(p.poll() is None for p in ps):
                time.sleep(0.01)
            open(go, "w").close()
            codes = [p.wait(150) for p in ps]
        finally:
            for p in ps:
                p.kill()
        mon.event("missing log directory")
        mon.event("processes at once", len(ps))
        err = [open(os.path.join(work.dir, f"err{k}")).read()[-1500:] for k in range(len(ps))]
        if compare_files(mon, cmds, codes, files(a), files(b), dict(stderr=err)):
            mon.evaluated("install", i, [c[1][3] for c in cmds])
    finally:
        work.close()


def case(family, i, rng, mon):
    if family == "sched":
        case_sched(rng, mon)
    elif family == "stress":
        case_stress(rng, mon)
    elif family == "fork":
        case_fork(rng, mon)
    elif family == "commands":
        case_commands(rng, mon)
    elif family == "cold":
        case_cold(i, rng, mon)
    else:
        case_install(i, rng, mon)
