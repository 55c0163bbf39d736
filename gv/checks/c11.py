"""C11 points are read exactly as given, from list, file or grid"""

import os
import shutil
import tempfile

import numpy as np

from gv import cfg, geo

LEVEL = "exploration"
RULE = (
    "A case writes a configuration whose masses and observers take their points from a list, a file, or (observers) a grid, alone or with lower-priority "
    "sources present that must be ignored, reads it through the code and compares every coordinate with the text that was written. "
    "list/file: 1-3000 points, whole and decimal numbers, 17 digits, exponents, signs, blanks, blank lines, CRLF, no final newline, repeated and sorted "
    "points, whole-number columns, relative and absolute paths, 1000-line files, files read again after their content was replaced; large: files of 5 000-150 000 lines, "
    "lists of 1 000-4 000 points, grids of 4 000-300 000 points; grid: dyadic and decimal starts, ends and steps, whole numbers, single planes, ends just above or below a grid point; "
    "missing: files that do not exist. Distinct and non-trivial by (source, object, number format, line format, number of points, lower-priority sources)."
)
ASSUMPTIONS = ["grids whose last point is decided by rounding of start, end and step are not judged"]
REQUIRED = ["list", "file", "grid", "missing file refused", "precedence", "whole numbers", "exact value compared", "blank line", "crlf", "1000 points", "end next to a grid point", "content replaced", "large file", "large list", "large grid", "configuration elsewhere"]


def setup(tier):
    geo.warm()


def plan(tier):
    if tier == "quick":
        return [("list", 1000, 20), ("file", 2500, 20), ("grid", 2000, 20), ("missing", 400, 20), ("large", 48, 3)]
    return [("list", 30000, 50), ("file", 60000, 50), ("grid", 60000, 50), ("missing", 4000, 50), ("large", 1200, 5)]


def numbers(rng, n):
    """(texts n x 3, format)"""
    how = str(rng.choice(["int", "decimal", "repr", "exp", "mixed", "intcol", "geo", "zero", "same", "big"]))
    X = rng.normal(size=(n, 3)) * 10 ** rng.uniform(-3, 7)

    def text(x, how):
        if how == "int":
            return str(int(round(x)))
        if how == "decimal":
            return f"{x:.{int(rng.integers(1, 9))}f}"
        if how == "exp":
            return f"{x:.{int(rng.integers(1, 12))}{rng.choice(['e', 'E'])}}"
        return repr(float(x))

    if how in ("int", "decimal", "repr", "exp"):
        T = [[text(x, how) for x in row] for row in X]
    elif how == "mixed":
        T = [[text(x, str(rng.choice(["int", "decimal", "repr", "exp"]))) for x in row] for row in X]
    elif how == "intcol":
        k = rng.random(3) < 0.5
        T = [[text(x, "int" if k[j] else "repr") for j, x in enumerate(row)] for row in X]
    elif how == "geo":
        lon, lat = geo.some_lonlat(rng, n)
        T = [[repr(float(a)), repr(float(b)), str(int(c))] for a, b, c in zip(lon, lat, rng.integers(-100, 5000, n))]
    elif how == "zero":
        T = [[str(rng.choice(["0", "0.0", "-0.0", "1", "-1", "0.5"])) for _ in range(3)] for _ in range(n)]
    elif how == "big":
        T = [[text(x * 1e9, str(rng.choice(["int", "repr"]))) for x in row] for row in X]
    else:  # repeated and sorted points
        row = [text(x, "repr") for x in X[0]]
        T = [list(row) for _ in range(n)]
    return T, how


def csv(rng, T, path, mon):
    line = str(rng.choice(["plain", "blank", "spaces", "crlf", "nofinal", "plus"]))
    rows = []
    for r in T:
        if line == "spaces":
            r = [" " * int(rng.integers(0, 3)) + x + " " * int(rng.integers(0, 2)) for x in r]
        elif line == "plus":
            r = ["+" + x if not x.startswith("-") and rng.random() < 0.5 else x for x in r]
        rows.append(",".join(r))
        if line == "blank" and rng.random() < 0.3:
            rows.append("")
            mon.event("blank line")
    end = "\r\n" if line == "crlf" else "\n"
    if line == "crlf":
        mon.event("crlf")
    s = end.join(rows) + ("" if line == "nofinal" else end)
    with open(path, "w", newline="") as f:
        f.write(s)
    return line


def yaml_list(T):
    return "[" + ", ".join("[" + ", ".join(r) + "]" for r in T) + "]"


def yaml_safe(T):
    """YAML reads 1e5 as text: floats need a point and a sign in the exponent"""
    out = []
    for r in T:
        q = []
        for x in r:
            if "e" in x.lower():
                x = repr(float(x))
                if "e" in x:
                    m, e = x.split("e")
                    x = (m if "." in m else m + ".0") + "e" + (e if e[0] in "+-" else "+" + e)
            q.append(x)
        out.append(q)
    return out


SECTION = """    crs: {{ref: {ref}, name: , semimajor_axis: , semiminor_axis: , longitude_origin: 1.0, latitude_origin: 2.0, altitude_origin: 3.0, vdatum: }}
"""
GRID0 = "[[0, 2, 1], [0, 2, 1], [0, 1, 1]]"


def config(who, points, path, grid, ref):
    """the text of a configuration with the given sources (None: empty)"""
    other = {"points": "[[1.0, 2.0, 3.0]]", "path": "", "grid": [[0, 1, 1]] * 3}
    m = (points, path, None) if who == "mass" else (other["points"], "", None)
    o = (points, path, grid) if who == "observers" else (other["points"], "", other["grid"])
    t = "masses:\n"
    t += f"  - points: {m[0] or ''}\n    file_path: {quote(m[1])}\n    density: 1000.0\n    gravity_constant: 6.67408e-11\n" + SECTION.format(ref=ref)
    t += f"observers:\n    points: {o[0] or '[]'}\n    file_path: {quote(o[1])}\n"
    g = o[2] or other["grid"]
    t += "    grid:\n" + "".join(f"      {k}: {v if isinstance(v, str) else list(v)}\n" for k, v in zip(cfg.GRID_KEYS, g))
    return t + SECTION.format(ref=ref)


def quote(p):
    return f'"{p}"' if p else ""


def read(who, path):
    import geec.config
    import geec.mass
    import geec.observer

    c = geec.config.setup(path)
    if who == "mass":
        (m,) = geec.mass.get_masses(c)
        return m.dataset.coords
    return geec.observer.get_observer(c).dataset.coords


def compare(mon, X, want, tol, **w):
    X = np.asarray(X)
    mon.event("exact value compared", want.size)
    if X.dtype.kind != "f" or X.dtype.itemsize < 8:
        mon.violate(f"points are read as {X.dtype}, not as floating-point numbers", got=X[:5], **w)
    elif X.shape != want.shape:
        mon.violate(f"{X.shape} coordinates read instead of {want.shape}", got=X[:20], **w)
    elif not (np.abs(X - want) <= tol).all():
        k = int(np.argmax(np.abs(X - want).max(axis=1)))
        mon.violate(f"point {k} read as {X[k].tolist()!r} instead of {want[k].tolist()!r}", **w)
    else:
        return True
    return False


def an_axis(rng):
    how = str(rng.choice(["int", "dyadic", "decimal", "one", "doc", "wide", "intmix", "just"]))
    n = int(rng.integers(1, 7))
    if how == "just":
        # ends just above or just below a grid point, further away than rounding
        a, s = float(np.round(rng.uniform(-200, 200), 3)), float(np.round(rng.uniform(0.01, 9), 3)) * 10.0 ** int(rng.integers(-2, 3))
        return [a, a + s * (n + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-11, -0.5)), s], how
    if how == "int":
        a, s = int(rng.integers(-10, 10)), int(rng.integers(1, 5))
        e = a + s * n - int(rng.integers(0, s))
        return [a, e, s], how
    if how == "intmix":
        a = int(rng.integers(-10, 10))
        return [a, a + n, 0.5], how
    if how == "dyadic":
        s = 2.0 ** int(rng.integers(-4, 4))
        a = float(rng.integers(-16, 16)) / 8
        return [a, a + n * s - float(rng.choice([0, s / 2])), s], how
    if how == "one":
        a = float(np.round(rng.normal() * 100, 2))
        return [a, a + 1, 1.5], how
    if how == "doc":
        return [-1.05, 1.06, 0.1] if rng.random() < 0.3 else [-1.05, 1.06, 0.4], how
    if how == "wide":
        a = float(rng.uniform(-180, 180))
        return [a, a + float(rng.uniform(1, 5)), float(rng.uniform(0.7, 3))], how
    a, s = float(np.round(rng.uniform(-5, 5), 2)), float(np.round(rng.uniform(0.1, 2), 2))
    return [a, round(a + s * (n - rng.uniform(0.1, 0.9)), 6), s], how


def case(family, i, rng, mon):
    d = tempfile.mkdtemp(prefix="c11.", dir=os.environ["GV_SCRATCH"])
    os.makedirs(os.path.join(d, "cwd", "sub dir"))
    os.chdir(os.path.join(d, "cwd"))
    cfg.home(os.path.join(d, "home"))
    try:
        run(family, i, rng, mon, os.path.join(d, "cwd"))
    finally:
        os.chdir(os.environ["GV_SCRATCH"])
        shutil.rmtree(d, ignore_errors=True)


def run(family, i, rng, mon, cwd):
    who = "observers" if family == "grid" else str(rng.choice(["mass", "observers"]))
    ref = str(rng.choice(["cart", "ecef", "ellps", "enu"]))
    path = os.path.join(cwd, "config.yaml")
    lower = []

    def decoy():
        """another source, of lower priority"""
        T, _ = numbers(rng, int(rng.integers(1, 5)))
        csv(rng, T, os.path.join(cwd, "decoy.csv"), mon)
        return "decoy.csv"

    large = None
    if family == "large":
        family = large = ["file", "list", "grid"][i % 3]
        who = "observers" if family == "grid" else who
        mon.event(f"large {large}")
    elif rng.random() < 0.3:
        # the configuration lies in another directory than the current one: its file names are relative to the latter
        path = os.path.join(cwd, "sub dir", "config.yaml")
        mon.event("configuration elsewhere")

    if family == "grid":
        ax, hows = zip(*[an_axis(rng) for _ in range(3)])
        if large:
            m = [int(x) for x in rng.permutation([rng.integers(2, 9), rng.integers(30, 90), rng.integers(70, 400)])]
            s = [float(x) for x in rng.choice([0.25, 0.1, 1.0, 0.01], 3)]
            ax = [[a[0], a[0] + h * (k - 0.5), h] for a, h, k in zip(ax, s, m)]
            hows = ("large",) * 3
        text = config("observers", None, None, ax, ref)
        open(path, "w").write(text)
        try:
            A = [cfg.axis(*a) for a in ax]
        except cfg.Undecided:
            mon.event("undecided grid")
            return
        want = np.array([(x, y, z) for x in A[0] for y in A[1] for z in A[2]])
        X = read("observers", path)
        # also for an axis that is built with a rounded step, as np.arange does
        tol = np.finfo(float).eps * np.array([(8 + len(A[k])) * max(abs(a[0]), abs(a[1]), 1e-300) for k, a in enumerate(ax)])
        mon.event("grid")
        if "just" in hows:
            mon.event("end next to a grid point")
        if all(h == "int" for h in hows):
            mon.event("whole numbers")
        if compare(mon, X, want, tol, config=text):
            mon.evaluated("grid", hows, [len(a) for a in A] if not large else len(want) // 4096, ref)
            mon.sample({"grid": ax, "points": len(want), "first": X[:3]})
        return
    if family == "missing":
        name = ["missing.csv", "/nonexistent/points.csv", "sub dir", os.path.join(cwd, "no.csv"), "~nobody/x.csv"][int(rng.integers(5))]
        text = config(who, None, name, [[0, 2, 1]] * 3, ref)
        open(path, "w").write(text)
        try:
            X = read(who, path)
        except Exception as exc:
            mon.event("missing file refused")
            mon.evaluated("missing", who, name if not name.startswith(cwd) else "no.csv", type(exc).__name__)
        else:
            mon.violate(f"missing file gives {len(X)} points", config=text, got=X[:5])
        return
    r = rng.random()
    n = int(rng.integers(1, 12)) if r < 0.9 else int(rng.integers(50, 300)) if r < 0.98 or family == "list" else int(rng.integers(1000, 3000))
    if large:
        n = int(10 ** rng.uniform(3.7, 5.18)) if family == "file" else int(rng.integers(1001, 4000))
    if n >= 1000:
        mon.event("1000 points")
    T, how = numbers(rng, n)
    if family == "list":
        T = yaml_safe(T)
        f = None
        if rng.random() < 0.5:
            f = str(rng.choice([decoy(), "missing.csv"]))
            lower.append("file")
            mon.event("precedence")
        text = config(who, yaml_list(T), f, [[0, 2, 1]] * 3, ref)
        line = "yaml"
    else:
        name = str(rng.choice(["points.csv", "points.txt", "sub dir/my points.csv", "p.CSV", "data"]))
        line = csv(rng, T, os.path.join(cwd, name), mon)
        if rng.random() < 0.5:
            name = os.path.join(cwd, name)
        if who == "observers":
            lower.append("grid")
            mon.event("precedence")
        text = config(who, None, name, [[0, 2, 1]] * 3, ref)
    open(path, "w").write(text)
    want = np.array([[float(x) for x in r] for r in T])
    if how in ("int", "intcol"):
        mon.event("whole numbers")
    mon.event(family)
    if not large and rng.random() < 0.3:
        # the same names were read before, with other content
        other, _ = numbers(rng, int(rng.integers(1, 12)))
        if family == "list":
            open(path, "w").write(config(who, yaml_list(yaml_safe(other)), f, [[0, 2, 1]] * 3, ref))
        else:
            kept = open(name, newline="").read()
            open(name, "w").write("".join(",".join(r) + "\n" for r in other))
        read(who, path)
        if family == "list":
            open(path, "w").write(text)
        else:
            open(name, "w", newline="").write(kept)
        mon.event("content replaced")
    X = read(who, path)
    if compare(mon, X, want, 0.0, config=text[:3000], numbers=how, lines=line, texts=T[:20]):
        mon.evaluated(family, who, how, line, n if n < 12 else n // 50, lower, ref)
        mon.sample({"source": family, "object": who, "format": how, "lines": line, "points": n, "first": T[:2]})
