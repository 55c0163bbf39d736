"""C20 a command reports what it used and did"""

import io
import os
import re

import yaml

from gv import cfg, core, runs
from gv.checks import c10, c13

LEVEL = "exploration"
RULE = (
    "shown: layered configurations (argument, user's own file, packaged default; complete or partial sections, all documented values) are shown, and the values reported for each mass and the observers are compared, in order, with a "
    "reference reading of the layers. commands: one to five run and config commands (good ones, ones damaged as in C13, ones whose file cannot be written) follow each other in one process; after each, the monitor looks at the files of the log directory (one new, the "
    "others untouched), at the values and levels logged, at what was printed and at which files were written. process: the same for commands in new processes. Distinct and non-trivial by (command, damage, layers, sources, position)."
)
ASSUMPTIONS = ["only the values reported and the paths named are judged, not the wording", "not judged: values set in no layer, the log of a command whose configuration cannot be read"]
REQUIRED = ["value compared", "from argument", "from user file", "own log", "other logs kept", "result named", "no result named", "values of a failed run", "template named", "new process", "several masses", "file cannot be written"]

MASS = [("density",), ("gravity_constant",), ("points",), ("file_path",)] + [("crs", k) for k in cfg.CRS_KEYS]
OBS = [("points",), ("file_path",)] + [("grid", k) for k in cfg.GRID_KEYS] + [("crs", k) for k in cfg.CRS_KEYS[:7]]
KEYS = {p[-1] for p in MASS + OBS}
LINE = re.compile(r"^\s*(\w+)\s*:\s?(.*)$")
RECORD = re.compile(r"^\d{4}-\d\d-\d\d [\d:.]+ \| (\w+) +\| [^|]*? - (.*)$")


def setup(tier):
    runs.prepare()


def plan(tier):
    if tier == "quick":
        return [("shown", 1200, 20), ("commands", 160, 2), ("process", 10, 1)]
    return [("shown", 60000, 100), ("commands", 4000, 5), ("process", 120, 2)]


def reported(messages):
    """(key, text of the value) in the order reported"""
    out = []
    for m in messages:
        x = LINE.match(m)
        if x and x[1] in KEYS:
            out.append((x[1], x[2].strip()))
    return out


def expected(layers):
    """(key, value, where) in order, or None if nothing is promised"""
    out = []
    try:
        for k in range(cfg.count(layers)):
            out += [(p[-1], cfg.get(layers, ("masses", k, *p)), ("masses", k, *p)) for p in MASS]
        out += [(p[-1], cfg.get(layers, ("observers", *p)), ("observers", *p)) for p in OBS]
    except cfg.Undecided:
        return None
    return None if any(v is cfg.MISSING for _, v, _ in out) else out


UNIT = {"density": " kg m-3", "gravity_constant": " m3 kg-1 s-2"}


def agrees(key, text, v):
    text = text.removesuffix(UNIT.get(key, "")).strip()
    if text == str(v).strip():
        return True
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        try:
            return float(text.split(" ")[0]) == v
        except ValueError:
            return False
    try:
        w = yaml.safe_load(text)
    except yaml.YAMLError:
        return False
    return w == v or (text in ("", "None") and v in (None, ""))


def compare(mon, messages, layers, names, what, wit):
    """True if the values reported are those in effect"""
    want = expected(layers)
    if want is None:
        return True
    got = reported(messages)
    # the order within a mass (or the observers) is free, that of the masses is not
    sizes = [len(MASS)] * cfg.count(layers) + [len(OBS)]
    if len(got) != sum(sizes):
        mon.violate(f"{what}: {len(got)} values reported, {sum(sizes)} expected", reported=got, **wit)
        return False
    j = 0
    for n in sizes:
        g = got[j : j + n]
        for key, v, path in want[j : j + n]:
            text = [t for k, t in g if k == key]
            if len(text) != 1:
                mon.violate(f"{what}: {'.'.join(map(str, path))} is reported {len(text)} times", reported=got, **wit)
                return False
            mon.event("value compared")
            src = c10.origin_of(layers, names, path)
            mon.event(src)
            if not agrees(key, text[0], v):
                mon.violate(f"{what}: {'.'.join(map(str, path))} is reported as {text[0]!r}, in effect is {v!r} ({src})", **wit)
                return False
        j += n
    return True


def case_shown(i, rng, mon):
    import geec.config
    from loguru import logger

    w = c10.Work(rng)
    try:
        family = "values" if i % 2 else "layers"
        layers, names = [], []
        which = str(rng.choice(["arg", "user", "both"]))
        arg = ""
        if which != "user":
            la = c10.layer(rng, w, family, 0.2)
            arg = os.path.join(w.cwd, "c.yaml")
            cfg.dump(arg, la)
            layers.append(cfg.load(arg))
            names.append("from argument")
        if which != "arg":
            cfg.dump(w.user, c10.layer(rng, w, "layers" if which == "both" else family, 0.2))
            layers.append(cfg.load(w.user))
            names.append("from user file")
        layers.append(cfg.load(os.path.join(core.REPO, "geec", "cfg", "config_default.yaml")))
        names.append("from packaged default")
        out = io.StringIO()
        h = logger.add(out, format="{message}", level="INFO")
        try:
            geec.config.show(geec.config.setup(arg))
        except Exception:
            if expected(layers) is not None:
                raise
            return
        finally:
            logger.remove(h)
        if cfg.count(layers) > 1:
            mon.event("several masses")
        compare(mon, out.getvalue().split("\n"), layers, names, "shown", dict(layers=layers))
        mon.evaluated("shown", which, family, [sorted(map(str, la)) for la in layers], cfg.count(layers))
        mon.sample({"layers": which, "shown": out.getvalue()[:400]})
    finally:
        w.close()


DAMAGES = ["points file missing", "points file garbled", "points words", "flat", "ref", "name", "density", "gravity_constant", "origin", "grid words"]
CODE = """
import pathlib, sys
import geec.api
geec.api.setup_logdir = lambda: pathlib.Path({log!r})
import geec.cli
sys.argv[0] = "geec"
geec.cli.app()
"""


def block(rng, want, mon):
    """make it impossible to write the file"""
    if os.path.isfile(os.path.dirname(want)):
        return "blocked"
    if rng.random() < 0.5 or os.path.basename(os.path.dirname(want)) == "cwd":
        os.makedirs(want)
    elif not os.path.exists(os.path.dirname(want)):
        open(os.path.dirname(want), "w").close()
    mon.event("file cannot be written")
    return "blocked"


def case_commands(family, i, rng, mon):
    proc = family == "process"
    work = runs.Work("c20.")
    try:
        default = cfg.load(os.path.join(core.REPO, "geec", "cfg", "config_default.yaml"))
        done = []
        for k in range(1 if proc else int(rng.integers(1, 6))):
            command = "config" if rng.random() < 0.25 else "run"
            layers, names, what = None, None, "none"
            if command == "run":
                scene = runs.Scene(rng, work, geoids=not proc, nobs=int(rng.integers(1, 4)), nmass=int(rng.integers(1, 4)))
                if rng.random() < 0.4:
                    what = str(rng.choice(DAMAGES))
                    c13.damage(rng, what, scene, work)
                C = dict(scene.config)
                layers, names = [C], ["from argument"]
                if os.path.exists(work.user):
                    os.remove(work.user)
                if rng.random() < 0.3:
                    part = str(rng.choice(["masses", "observers"]))
                    cfg.dump(work.user, {part: C.pop(part)})
                    layers.append(cfg.load(work.user))
                    names.append("from user file")
                path = os.path.join(work.cwd, f"c{k}.yaml")
                cfg.dump(path, C)
                layers[0] = cfg.load(path)
                layers.append(default)
                names.append("from packaged default")
                name = f"res{k}" if rng.random() < 0.5 else f"out {k}/res.csv"
                args = ["run", name, "--config", path]
                want = os.path.join(work.cwd, f"res{k}.csv" if name == f"res{k}" else name)
                if rng.random() < 0.3:
                    args.append("--gradient")
                if what == "none" and rng.random() < 0.25:
                    what = block(rng, want, mon)
            else:
                name = str(rng.choice(["", f"template{k}", f"my template{k}.yaml", f"no such directory/t{k}"]))
                args = ["config"] + (["--output", name] if name else [])
                want = os.path.join(work.cwd, name.removesuffix(".yaml") + ".yaml" if name else "config_template.yaml")
                if name and rng.random() < 0.25:
                    what = block(rng, want, mon)
            want = os.path.realpath(want)
            logs = {f: open(os.path.join(work.log, f), encoding="utf8").read() for f in os.listdir(work.log)}
            if proc:
                code, err, out = runs.spawn(args, work, code=CODE.format(log=work.log))
                printed = out + err
                mon.event("new process")
            else:
                code, err, printed = runs.invoke(args, work)
            done.append((args, what, code))
            wit = dict(commands=done, layers=layers, printed=printed[-1500:])
            now = {f: open(os.path.join(work.log, f), encoding="utf8").read() for f in os.listdir(work.log)}
            new = sorted(set(now) - set(logs))
            if len(new) != 1:
                mon.violate(f"{command} left {len(new)} new files in the log directory, not one of its own", files=sorted(now), **wit)
                return
            mon.event("own log")
            changed = [f for f in logs if now.get(f) != logs[f]]
            if logs:
                mon.event("other logs kept")
            if changed:
                mon.violate(f"{command} changed the log of an earlier command", files=changed, **wit)
                return
            text = now[new[0]]
            records = [m.groups() for m in map(RECORD.match, text.split("\n")) if m]
            wit["log"] = text[-3000:]
            if command == "run":
                if not compare(mon, [m for _, m in records], layers, names, f"log of run {k}", wit):
                    return
                if cfg.count(layers) > 1:
                    mon.event("several masses")
                if code:
                    mon.event("values of a failed run")
            if code == 0:
                if not os.path.isfile(want):
                    mon.violate(f"{command} succeeded without writing {want}", **wit)
                    return
                if want not in printed:
                    mon.violate(f"{command} succeeded and does not print the path of the file it wrote", path=want, **wit)
                    return
                if want not in text:
                    mon.violate(f"{command} succeeded and its log does not name the file it wrote", path=want, **wit)
                    return
                mon.event("result named" if command == "run" else "template named")
            else:
                if any(level == "SUCCESS" for level, _ in records) or (not proc and want in printed):
                    mon.violate(f"{command} failed and reports a file as written", path=want, **wit)
                    return
                mon.event("no result named")
            mon.evaluated(family, command, what, code != 0, k, [m["crs"]["ref"] for m in scene.config["masses"]] if command == "run" else name)
        mon.sample({"commands": [d[0][:2] + [d[1], d[2]] for d in done]})
    finally:
        work.close()


def case(family, i, rng, mon):
    if family == "shown":
        case_shown(i, rng, mon)
    else:
        case_commands(family, i, rng, mon)
