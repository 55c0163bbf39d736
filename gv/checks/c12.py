"""C12 the run command writes the right field for every observer"""

import os

import numpy as np

from gv import cfg, runs

LEVEL = "exploration"
RULE = (
    "A case writes a configuration with 1-32 masses and 1-3000 observers near each other (some at a corner or on an edge of a body), in Cartesian or in mixed geographic (10 named ellipsoids, custom axes, 4 vertical "
    "datums, longitudes outside -180..180), ENU and ECEF coordinates, from lists, files and grids, runs `geec run` (in this process, some in a new process), with and without "
    "--gradient, to various output paths, and compares the file with a reference: place of every observer and mass point by extended-precision geodesy, total field by the "
    "reference model, exact header rows, one row per observer in order, one new file only. Distinct and non-trivial by (systems and densities of masses, system and "
    "source of observers, options, form of the output path)."
)
ASSUMPTIONS = [
    "the egm96 and egm2008 grids, absent from the checkout, are replaced by synthetic ones (in-process runs)",
    "Cartesian and Earth-fixed systems are not mixed in one run", "observers have no vertical datum",
]
REQUIRED = ["row compared", "gravity compared", "tensor compared", "tensor zero", "several masses", "cart", "ellps", "enu", "ecef", "new process", "directory created", "geoid", "overwritten", "1000 observers", "8 masses", "run again", "faint masses", "observer at a corner", "distant masses"]


def setup(tier):
    runs.prepare()


def plan(tier):
    if tier == "quick":
        return [("run", 900, 5), ("many", 24, 1), ("process", 12, 1), ("large", 8, 1), ("masses", 24, 1)]
    return [("run", 20000, 20), ("many", 400, 2), ("process", 120, 2), ("large", 80, 1), ("masses", 400, 2)]


def output(rng, work, mon):
    """(argument, expected file, form)"""
    form = str(rng.choice(["plain", "csv", "txt", "dir", "deep", "abs", "home", "dotdir", "space", "overwrite", "up", "dots", "unicode", "dotfile"]))
    home = os.environ["HOME"]
    a, e = {
        "plain": ("result", "result.csv"),
        "csv": ("result.csv", "result.csv"),
        "txt": ("result.txt", "result.csv"),
        "dir": ("out/result", "out/result.csv"),
        "deep": ("a/b/c/result.csv", "a/b/c/result.csv"),
        "abs": (os.path.join(work.dir, "elsewhere", "r"), os.path.join(work.dir, "elsewhere", "r.csv")),
        "home": ("~/results/r.csv", os.path.join(home, "results", "r.csv")),
        "dotdir": ("./v1.2/result", "v1.2/result.csv"),
        "space": ("my results/the result", "my results/the result.csv"),
        "overwrite": ("old.csv", "old.csv"),
        "dots": ("v1.2/res.2024.05.csv", "v1.2/res.2024.05.csv"),
        "unicode": ("résultats/gravité", "résultats/gravité.csv"),
        "dotfile": (".cache/.r.csv", ".cache/.r.csv"),
        "up": ("x/../y/result", "y/result.csv"),
    }[form]
    e = os.path.join(work.cwd, e)
    if form == "overwrite":
        open(e, "w").write("old result\n" * 100)
        mon.event("overwritten")
    if form in ("dir", "deep", "abs", "home", "dotdir"):
        mon.event("directory created")
    return a, e, form


def case(family, i, rng, mon):
    work = runs.Work("c12.")
    try:
        proc = family == "process"
        size = {}
        if family == "many":
            size = {"nobs": int(rng.integers(30, 61))}
        elif family == "large":
            size = {"nobs": int(rng.integers(1001, 3000)), "nmass": 1 + i % 2, "shape": "tetra"}
            mon.event("1000 observers")
        elif family == "masses":
            size = {"nmass": int(rng.integers(8, 33)), "nobs": int(rng.integers(1, 5)), "shape": None if i % 2 else "tetra"}
            mon.event("8 masses")
        scene = runs.Scene(rng, work, geoids=not proc, **size)
        if proc and rng.random() < 0.5:
            for m in scene.config["masses"]:
                if m["crs"]["ref"] in (None, "ellps"):
                    m["crs"]["vdatum"] = "egm84"
        layers = [scene.config]
        if not proc and rng.random() < 0.2:
            # part of it in the user's own file
            user = {k: scene.config[k] for k in ("observers",)}
            cfg.dump(work.user, user)
            scene.config = {"masses": scene.config["masses"]}
            layers = [scene.config, user]
        path = scene.write(str(rng.choice(["config.yaml", "my.yml", "c"])))
        grad = bool(rng.random() < 0.5)
        arg, want, form = output(rng, work, mon)
        args = ["run", arg, "--config", path]
        if grad:
            args.insert(int(rng.integers(1, 3)), "--gradient")
        elif rng.random() < 0.3:
            args.append("--no-gradient")
        w = dict(layers=layers, args=args, cwd_files={k: v.decode()[:2000] for k, v in work.tree().items() if k.endswith(".csv") and len(v) < 2000})
        if not proc and family == "run" and rng.random() < 0.15:
            # the same command has run before, when its files had other content
            kept = work.tree()
            other = dict(scene.config)
            other["masses"] = [m | {"density": 123.0} for m in scene.config["masses"]]
            cfg.dump(path, other)
            for k in kept:
                if k.endswith(".csv") and os.path.basename(k).startswith("p"):
                    X = np.loadtxt(os.path.join(work.dir, k), delimiter=",", ndmin=2)
                    np.savetxt(os.path.join(work.dir, k), X + np.ptp(X, axis=0) * 0.1 + 1e-3, delimiter=",")
            runs.invoke(args, work)
            for k in work.tree():
                if k in kept:
                    open(os.path.join(work.dir, k), "wb").write(kept[k])
                else:
                    os.remove(os.path.join(work.dir, k))
            mon.event("run again")
        before = work.tree()
        if proc:
            code, err, out = runs.spawn(args, work)
            mon.event("new process")
        else:
            code, err, out = runs.invoke(args, work)
        if code != 0:
            mon.violate(f"run failed with exit status {code}: {err!r}", **w)
            return
        if not os.path.isfile(want):
            mon.violate(f"no result file {want} for output {arg!r}", files=sorted(work.tree()), **w)
            return
        after = work.tree()
        rel = os.path.relpath(want, work.dir)
        extra = [k for k in after if k != rel and after[k] != before.get(k)]
        gone = [k for k in before if k not in after]
        if extra or gone:
            mon.violate(f"the run changed other files: {extra + gone}", **w)
            return
        if not runs.check_result(mon, want, layers, work.cwd, grad, w):
            return
        M = layers[0]["masses"]
        kinds = [m["crs"]["ref"] or "ellps" for m in M]
        o = layers[-1]["observers"]
        okind = o["crs"]["ref"] or "ellps"
        for k in kinds + [okind]:
            mon.event(k)
        if scene.distant:
            mon.event("distant masses")
        if scene.faint:
            mon.event("faint masses")
        if scene.at_corner and grad:
            mon.event("observer at a corner")
        if len(M) > 1:
            mon.event("several masses")
        vd = [m["crs"]["vdatum"] for m in M]
        if any(v in ("egm84", "egm96", "egm2008") for v in vd):
            mon.event("geoid")
        src = "list" if o["points"] else "file" if o["file_path"] else "grid"
        mon.evaluated(kinds, vd, okind, src, grad, form, len(M))
        mon.sample({"masses": kinds, "vdatum": vd, "observers": okind, "source": src, "args": args[1:], "first_row": open(want).read().split("\n")[2][:200]})
    finally:
        work.close()
