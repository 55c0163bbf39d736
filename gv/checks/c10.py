"""C10 configuration layers and values are honoured, bad ones refused"""

import os
import shutil
import tempfile

import numpy as np

from gv import cfg, core, geo

LEVEL = "exploration"
RULE = (
    "A case writes up to two configuration files with random subsets of the documented keys (--config argument, the user's ~/.config/geec/config.yaml), "
    "above the packaged default, asks the code for masses and observers, and compares them with a reference reading of the layers: "
    "values: complete sections with every documented reference, datum, ellipsoid name, custom axes, origin, density and constant; layers: "
    "partial sections over each other, several masses; some of the files read before with other content, some objects changed by the caller and read again; bad: unknown names, wrong types, missing files, which must be refused with an exception. "
    "Distinct and non-trivial by (which layers exist, number of masses, which layer each key of each object comes from, kinds of values)."
)
ASSUMPTIONS = [
    "a key written with an empty value counts as set (to the documented default)",
    "not judged: keys missing from all layers, ellipsoid name together with axes, capital letters in names",
]
REQUIRED = ["mass compared", "observer compared", "refused", "from argument", "from user file", "from packaged default", "several masses", "custom axes", "enu origin", "empty value", "zero value", "content replaced", "read again"]


def setup(tier):
    geo.warm()


def plan(tier):
    if tier == "quick":
        return [("values", 900, 15), ("layers", 2200, 20), ("bad", 900, 20)]
    return [("values", 20000, 50), ("layers", 60000, 50), ("bad", 20000, 50)]


def triples(rng, n):
    P = rng.normal(size=(n, 3)) * 10 ** rng.uniform(-1, 3)
    if rng.random() < 0.4:
        return np.round(P).astype(int).tolist()
    return np.round(P, int(rng.integers(1, 12))).tolist()


class Work:
    def __init__(self, rng):
        self.dir = tempfile.mkdtemp(prefix="c10.", dir=os.environ["GV_SCRATCH"])
        self.cwd = os.path.join(self.dir, "cwd")
        os.makedirs(os.path.join(self.cwd, "geec", "data"))
        self.user = cfg.home(os.path.join(self.dir, "home"))
        os.chdir(self.cwd)
        # what the packaged default points to
        self.write("geec/data/dem0.csv", rng, 4)
        self.n = 0

    def write(self, name, rng, n):
        with open(os.path.join(self.cwd, name), "w") as f:
            for p in triples(rng, n):
                f.write(",".join(map(repr, p)) + "\n")
        return name

    def file(self, rng):
        self.n += 1
        name = f"points{self.n}.csv"
        self.write(name, rng, int(rng.integers(1, 6)))
        return name if rng.random() < 0.5 else os.path.join(self.cwd, name)

    def close(self):
        os.chdir(os.environ["GV_SCRATCH"])
        shutil.rmtree(self.dir, ignore_errors=True)


def full_mass(rng, w, bad=0.0):
    m = {"points": triples(rng, int(rng.integers(1, 6))), "file_path": None}
    if rng.random() < 0.4:
        m["points"] = [None, []][int(rng.integers(2))]
        m["file_path"] = w.file(rng)
        if rng.random() < bad:
            m["file_path"] = str(rng.choice(["missing.csv", "/nonexistent/points.csv", "geec"]))
    m["density"] = [1000.0, 2670, float(np.round(rng.uniform(-500, 5000), 3)), 0.0, -300.5, 0, 1.5e-300, 1e30][int(rng.integers(8))]
    m["gravity_constant"] = [6.67408e-11, 6.6743e-11, 1.0, 2, float(rng.uniform(6e-11, 7e-11)), 0.0, 0, -6.67408e-11, 1e-99][int(rng.integers(9))]
    if rng.random() < bad:
        m[str(rng.choice(["density", "gravity_constant"]))] = ["heavy", None, [1.0], "1 kg"][int(rng.integers(4))]
    m["crs"] = cfg.full_crs(rng, bad=bad)
    return m


def full_observers(rng, w, bad=0.0):
    o = {"points": triples(rng, int(rng.integers(1, 6))), "file_path": None, "grid": {}}
    r = rng.random()
    if r < 0.6:
        o["points"] = [None, []][int(rng.integers(2))]
    if r < 0.3:
        o["file_path"] = w.file(rng)
        if rng.random() < bad:
            o["file_path"] = str(rng.choice(["missing.csv", "/nonexistent/obs.csv"]))
    elif rng.random() < 0.3:
        o["file_path"] = ""
    for k in cfg.GRID_KEYS:
        a = float(np.round(rng.uniform(-10, 10), 2))
        n, s = int(rng.integers(1, 5)), float(np.round(rng.uniform(0.1, 3), 2))
        o["grid"][k] = [a, round(a + s * (n - 0.5), 6), s]
    o["crs"] = cfg.full_crs(rng, bad=bad)
    if rng.random() < 0.5 and o["crs"]["vdatum"] in (None, "ellps"):
        del o["crs"]["vdatum"]
    return o


def thin(rng, d, keep):
    """a random part of a section"""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            if rng.random() < keep + 0.2:
                out[k] = thin(rng, v, keep)
        elif rng.random() < keep:
            out[k] = v
    return out


def layer(rng, w, family, bad):
    out = {}
    keep = 1.0 if family == "values" else float(rng.choice([0.3, 0.6, 0.9, 1.0]))
    if rng.random() < 0.85 or family == "values":
        n = int(rng.choice([1, 1, 2, 3])) if rng.random() < 0.96 else int(rng.integers(4, 40))
        out["masses"] = []
        for _ in range(n):
            m = full_mass(rng, w, bad)
            out["masses"].append(thin(rng, m, keep) if keep < 1 else m)
        if any(not m for m in out["masses"]):
            out["masses"] = [m or {"density": 5.0} for m in out["masses"]]
    if rng.random() < 0.85 or family == "values":
        o = full_observers(rng, w, bad)
        out["observers"] = thin(rng, o, keep) if keep < 1 else o
    return out


def origin_of(layers, names, path):
    for la, n in zip(layers, names):
        if cfg.get([la], path) is not cfg.MISSING:
            return n
    return "-"


def same_crs(crs, want):
    kind, ax, origin, vd = want
    if geo.name_of(crs) != kind:
        return f"reference is {geo.name_of(crs)}, not {kind}"
    if ax:
        e = crs.ellps
        if (float(e.semimajor_axis), float(e.semiminor_axis)) != tuple(map(float, ax)):
            return f"ellipsoid is {e.semimajor_axis, e.semiminor_axis}, not {ax}"
        got = str(getattr(crs.vdatum, "value", crs.vdatum))
        if got != vd:
            return f"vertical datum is {got}, not {vd}"
    if origin:
        o = crs.enu
        if (float(o.longitude_origin), float(o.latitude_origin), float(o.altitude_origin)) != origin:
            return f"ENU origin is {o}, not {origin}"
        if (float(o.ellps.semimajor_axis), float(o.ellps.semiminor_axis)) != tuple(map(float, ax)):
            return f"ellipsoid of the ENU origin is {o.ellps}, not {ax}"
    return None


def same_points(X, Y):
    X = np.asarray(X)
    return X.shape == Y.shape and np.allclose(X.astype(float), Y, rtol=1e-13, atol=1e-13)


def decide(f, *a):
    try:
        return "value", f(*a)
    except cfg.Refused as e:
        return "refused", str(e)
    except cfg.Undecided as e:
        return "undecided", str(e)


def ask(f, *a):
    try:
        return "value", f(*a)
    except Exception as e:
        return "refused", repr(e)


def case(family, i, rng, mon):
    import geec.config
    import geec.mass
    import geec.observer

    w = Work(rng)
    try:
        bad = 0.5 if family == "bad" else 0.0
        default = cfg.load(os.path.join(core.REPO, "geec", "cfg", "config_default.yaml"))
        layers, names = [], []
        before = None
        if rng.random() < 0.25:
            # the same files were read before, with other content
            before = layer(rng, w, "values", 0.0)
        which = str(rng.choice(["arg", "user", "both", "none"], p=[0.4, 0.2, 0.37, 0.03]))
        arg = None
        if which in ("arg", "both"):
            la = layer(rng, w, family, bad)
            arg = os.path.join(w.cwd, "my config.yaml")
            cfg.dump(arg, la)
            layers.append(la)
            names.append("from argument")
        if which in ("user", "both"):
            la = layer(rng, w, "layers" if which == "both" else family, bad if which == "user" else 0.0)
            cfg.dump(w.user, la)
            layers.append(la)
            names.append("from user file")
        layers.append(default)
        names.append("from packaged default")
        wit = dict(layers=layers, names=names)
        if before is not None:
            texts = {p: open(p).read() for p in (arg, w.user) if p and os.path.exists(p)}
            for p in (arg or w.user, w.user):
                cfg.dump(p, before)
            ask(lambda: [geec.mass.get_masses(geec.config.setup(arg or "")), geec.observer.get_observer(geec.config.setup(arg or ""))])
            for p in {arg or w.user, w.user}:
                if p in texts:
                    open(p, "w").write(texts[p])
                else:
                    os.remove(p)
            mon.event("content replaced")
        if family == "bad" and rng.random() < 0.15:
            kind = str(rng.choice(["absent", "syntax", "directory"]))
            path = os.path.join(w.cwd, "bad.yaml")
            if kind == "syntax":
                open(path, "w").write("masses: [\n - {")
            elif kind == "directory":
                os.mkdir(path)
            got = ask(lambda: geec.mass.get_masses(geec.config.setup(path)))
            mon.event("refused")
            mon.evaluated("file", kind, got[0])
            if got[0] == "value":
                mon.violate(f"a configuration file that cannot be read ({kind}) is accepted", **wit)
            return
        config = geec.config.setup(arg) if arg or rng.random() < 0.5 else geec.config.setup("")
        want = decide(cfg.masses, layers, w.cwd)
        got = ask(geec.mass.get_masses, config)
        if got[0] == "value" and rng.random() < 0.25:
            # what the caller does with the objects is not seen by the next reading
            for m in got[1]:
                m.dataset.coords[...] = -7.0
                m.dataset.crs.vdatum = None
                m.density = -1.0
            del got[1][:]
            got = ask(geec.mass.get_masses, config)
            mon.event("read again")
        judge(mon, want, got, wit, layers, names)
        want = decide(cfg.observers, layers, w.cwd)
        got = ask(geec.observer.get_observer, config)
        if want[0] == "refused":
            mon.event("refused")
            mon.evaluated("observer refused", want[1])
            if got[0] == "value":
                mon.violate(f"observers: a configuration to be refused is accepted: {want[1]}", **wit)
        elif want[0] == "value":
            if got[0] == "refused":
                mon.violate(f"observers: a valid configuration is refused: {got[1]}", **wit)
                return
            (X, c), o = want[1], got[1].dataset
            mon.event("observer compared")
            msg = same_crs(o.crs, c)
            if msg is None and not same_points(o.coords, X):
                msg = "points differ"
            if msg:
                mon.violate(f"observers: {msg}", got=o.coords, **wit)
            src = [origin_of(layers, names, ("observers", k)) for k in ("points", "file_path", "grid")]
            src += [origin_of(layers, names, ("observers", "crs", k)) for k in cfg.CRS_KEYS]
            for s in set(src):
                mon.event(s)
            mon.evaluated("observer", c[0], c[3], len(X), [s[5:6] for s in src])
        else:
            mon.event("undecided")
    finally:
        w.close()


def judge(mon, want, got, wit, layers, names):
    if want[0] == "undecided":
        mon.event("undecided")
        return
    if want[0] == "refused":
        mon.event("refused")
        mon.evaluated("mass refused", want[1])
        if got[0] == "value":
            mon.violate(f"masses: a configuration to be refused is accepted: {want[1]}", **wit)
        return
    if got[0] == "refused":
        mon.violate(f"masses: a valid configuration is refused: {got[1]}", **wit)
        return
    W, M = want[1], got[1]
    if len(W) != len(M):
        mon.violate(f"{len(M)} masses instead of {len(W)}", **wit)
        return
    if len(W) > 1:
        mon.event("several masses")
    for k, ((X, c, d, g), m) in enumerate(zip(W, M)):
        mon.event("mass compared")
        msg = same_crs(m.dataset.crs, c)
        if msg is None and not same_points(m.dataset.coords, X):
            msg = "points differ"
        if msg is None and float(m.density) != d:
            msg = f"density is {m.density}, not {d}"
        if msg is None and float(m.gravity_constant) != g:
            msg = f"gravity constant is {m.gravity_constant}, not {g}"
        if msg:
            mon.violate(f"mass {k}: {msg}", got=m.dataset.coords, **wit)
            return
        src = [origin_of(layers, names, ("masses", k, x)) for x in cfg.MASS_KEYS]
        src += [origin_of(layers, names, ("masses", k, "crs", x)) for x in cfg.CRS_KEYS]
        for s in set(src):
            mon.event(s)
        if d == 0 or g == 0:
            mon.event("zero value")
        if c[2]:
            mon.event("enu origin")
        if c[1] and tuple(c[1]) not in geo.ELL.values():
            mon.event("custom axes")
        if any(cfg.get(layers, ("masses", k, "crs", x)) is None for x in ("ref", "name", "vdatum")):
            mon.event("empty value")
        mon.evaluated("mass", k, len(W), c[0], c[3], len(X), [s[5:6] for s in src])
    mon.sample({"layers": wit["layers"][:-1], "names": names, "masses": [(c, d, g) for _, c, d, g in W]})
