"""Runner: drives the real code with generated workloads, collects what the monitors
observed, decides (held / violated / inconclusive), writes evidence and replay files."""

import collections
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("GEEC_REPO", "/repo"))
PKG = os.path.join(REPO, "geec") + os.sep
CASE_TIMEOUT = 200  # no case takes more than a few seconds
RUN_TIMEOUT = {"quick": 780, "thorough": 6 * 3600}


class CaseTimeout(BaseException):
    pass


class Monitor:
    """what was observed during one case"""

    def __init__(self):
        self.events = collections.Counter()
        self.states = set()
        self.violations = []
        self.samples = []
        self.evaluations = 0

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """a distinct, non-trivial situation the deciding oracle was applied to"""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.states.add(h)

    def evaluated(self, *key):
        self.evaluations += 1
        self.state(*key)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violate(self, message, /, **witness):
        if len(self.violations) < 5:
            try:
                witness = jsonable(witness)
            except Exception:
                witness = repr(witness)[:20000]
            self.violations.append({"what": message, "witness": witness})
        else:
            self.events["further violations"] += 1

    def dump(self):
        return (self.events, self.states, self.violations, self.samples, self.evaluations)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.astype(float).tolist() if x.dtype.kind in "fg" else x.tolist())
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def in_geec(tb):
    """does the traceback pass through the code under test?"""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PKG):
            return True
        tb = tb.tb_next
    return False


def tag(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=4).digest(), "big")


def case_rng(seed, family, i):
    return np.random.default_rng([seed, tag(family), i])


_check = None
_seed = 0


def _alarm(*_):
    raise CaseTimeout()


FORM = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)


def run_case(check, seed, family, i):
    mon = Monitor()
    err, t = None, time.monotonic()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with np.errstate(all="ignore"):
            check.case(family, i, case_rng(seed, family, i), mon)
    except CaseTimeout as exc:
        text = "".join(traceback.format_exception(exc))
        if in_geec(exc.__traceback__):
            mon.violate(f"the code under test does not come to an end within {CASE_TIMEOUT} s", traceback=text[-2500:])
        else:
            err = f"timeout in case {family}/{i}\n{text}"
    except Exception as exc:
        text = "".join(traceback.format_exception(exc))
        if in_geec(exc.__traceback__):
            mon.violate(f"unexpected exception in the code under test: {exc!r}", traceback=text[-2500:])
        elif isinstance(exc, FORM):
            # the oracles accept whatever the code promises: what it returned has another form
            mon.violate(f"what the code returned cannot be judged, it lacks the promised form: {exc!r}", traceback=text[-2500:])
        else:
            err = text
    finally:
        signal.alarm(0)
    if os.environ.get("GV_SLOW") and time.monotonic() - t > float(os.environ["GV_SLOW"]):
        print(f"slow: {family}/{i} {time.monotonic() - t:.1f} s", flush=True)
    return mon.dump() + (err, family, i)


def _worker(task):
    out = []
    for family, i in task:
        out.append(run_case(_check, _seed, family, i))
    return out


def load(pid):
    for path in (REPO, VERIF):
        if path in sys.path:
            sys.path.remove(path)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    check = importlib.import_module(f"gv.checks.{pid.lower()}")
    import geec

    where = os.path.realpath(geec.__file__)
    if not where.startswith(PKG):
        raise RuntimeError(f"geec imported from {where}, not from {REPO}")
    return check


def known_findings(pid):
    """lines 'known: property=<id> key=<mechanism> <text>' (none at present)"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" ")
                out[key.removeprefix("key=")] = text
    return out


def main(argv):
    try:
        return _main(argv)
    except Exception:
        traceback.print_exc()
        return 2


def _main(argv):
    global _check, _seed
    faulthandler.enable()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    scale = float(os.environ.get("GV_SCALE", "1"))
    nproc = int(os.environ.get("GV_PROCS", str(min(8, os.cpu_count() or 1))))
    args = list(argv[1:])
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = json.load(open(os.path.join(os.environ.get("GV_CWD", "."), args.pop(0))))
        else:
            raise SystemExit(f"unknown argument {a}")
    t0 = time.monotonic()
    check = load(pid)
    _check = check
    if replay:
        seed = replay["seed"]
        check.setup(replay["tier"])
        _seed = seed
        r = run_case(check, seed, replay["family"], replay["case"])
        for v in r[2]:
            print(json.dumps(v, indent=1))
        if r[5]:
            print(r[5])
        print("replayed:", "violated" if r[2] else "not violated")
        return 1 if r[2] else 0
    _seed = seed
    try:
        check.setup(tier)
    except Exception as exc:
        text = "".join(traceback.format_exception(exc))
        print(text)
        if not in_geec(exc.__traceback__):
            return 2
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{pid}-setup.txt")
        with open(rp, "w") as f:
            f.write(text)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    tasks = []
    for family, n, chunk in check.plan(tier):
        n = max(1, int(round(n * scale)))
        ids = list(range(n))
        tasks += [[(family, i) for i in ids[k : k + chunk]] for k in range(0, n, chunk)]
    # spread families over the run, so that no slow family is left for the end
    tasks = [tasks[k] for k in np.random.default_rng(7).permutation(len(tasks))]
    events, states = collections.Counter(), set()
    violations, samples, errors = [], [], []
    evaluations = cases = 0
    deadline = t0 + RUN_TIMEOUT[tier]
    timed_out, first = False, None
    ctx = mp.get_context("fork")
    pool = ctx.Pool(nproc)
    try:
        it = pool.imap_unordered(_worker, tasks)
        while True:
            try:
                res = it.next(timeout=max(1.0, deadline - time.monotonic()))
            except StopIteration:
                break
            except mp.TimeoutError:
                timed_out = True
                break
            for ev, st, vi, sa, n, err, family, i in res:
                cases += 1
                events += ev
                states |= st
                evaluations += n
                for v in vi:
                    violations.append((family, i, v))
                if sa and len(samples) < 40:
                    samples += [{"family": family, "case": i, **(s if isinstance(s, dict) else {"what": s})} for s in sa[:1]]
                if err:
                    errors.append(err)
            if violations and first is None:
                first = time.monotonic()
            if len(violations) > 50 or (first is not None and tier == "quick" and time.monotonic() - first > 60):
                break
    finally:
        pool.terminate()
        pool.join()
    if hasattr(check, "teardown"):
        check.teardown()
    violations.sort(key=lambda v: (v[0], v[1]))
    known = known_findings(pid)
    fresh, seen = [], set()
    for family, i, v in violations:
        k = getattr(check, "classify", lambda f, v: None)(family, v)
        if k in known:
            seen.add(k)
        else:
            fresh.append((family, i, v))
    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    picked, fams = [], set()
    for s in samples:
        if s["family"] not in fams or len(picked) < 6:
            fams.add(s["family"])
            picked.append(s)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": check.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(states),
            "rule": check.RULE,
            "samples": jsonable(picked[:12]),
            "cases": cases,
            "events": dict(sorted((k, int(v)) for k, v in events.items())),
        },
        "assumptions": list(check.ASSUMPTIONS),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    print(f"{pid} {tier} seed={seed}: {cases} cases, {evaluations} evaluations, {len(states)} distinct, {len(fresh)} violations, {len(errors)} errors, {evidence['wall_s']} s")
    if fresh:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for family, i, v in fresh[:5]:
            rp = os.path.join(d, f"{pid}-{family}-{i}.json")
            with open(rp, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "family": family, "case": i, **v}, f, indent=1)
            print(f"  {family}/{i}: {v['what'][:300]}")
        family, i, v = fresh[0]
        print(f"VIOLATION property={pid} replay={os.path.join(d, f'{pid}-{family}-{i}.json')}")
        return 1
    if errors:
        print(f"INCONCLUSIVE: {len(errors)} harness errors; first:\n{errors[0]}")
        return 2
    if timed_out:
        print("INCONCLUSIVE: watchdog fired before all cases ran")
        return 2
    missing = [k for k in check.REQUIRED if not events.get(k)]
    if missing or not evaluations:
        print(f"INCONCLUSIVE: monitors never reached: {missing or 'any'}")
        return 2
    return 0
