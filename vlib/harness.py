"""Runs the generated-input search of a property and writes its evidence.

A check module (checks/<id>.py) has SUBS, a list of Sub. Each Sub has a Hypothesis strategy that makes a
JSON-able case and a function that runs the case against the code in /repo and an oracle, raising Violation.
"""
import contextlib
import hashlib
import importlib
import io
import json
import math
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUDGET_S = {"quick": 420.0, "thorough": 3600.0}
WORKERS = max(1, min(8, len(os.sched_getaffinity(0))))

_scratch = None


def scratch():
    """Scratch directory of this process (removed at the end)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="owcverif.")
    return _scratch


_counter = [0]


def fresh_dir(name="d"):
    """A directory that no earlier case used (the code caches files by path)."""
    _counter[0] += 1
    path = os.path.join(scratch(), f"{name}{_counter[0]}")
    os.makedirs(path)
    return path


def drop_dir(path):
    assert path.startswith(scratch() + os.sep)
    shutil.rmtree(path, ignore_errors=True)


def cleanup():
    if _scratch is not None and os.path.basename(_scratch).startswith("owcverif."):
        shutil.rmtree(_scratch, ignore_errors=True)


# ---- environment -------------------------------------------------------------------------------------------

def setup_environment():
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch(), "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    os.chdir(scratch())
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import pyowc
    origin = os.path.dirname(os.path.dirname(os.path.abspath(pyowc.__file__)))
    if os.path.realpath(origin) != os.path.realpath(REPO):
        raise RuntimeError(f"pyowc comes from {origin}, not {REPO}")
    # Hypothesis is not in the repository's environment: take it (only) from the tools environment, after everything.
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60
    warnings.simplefilter("ignore")
    return hypothesis


# ---- violations ----------------------------------------------------------------------------------------------

class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is at fault."""


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_Null()):
        yield


@contextlib.contextmanager
def under_test(what="code under test"):
    """Runs the code under test and reads its result: any exception in here is a violation."""
    try:
        with quiet():
            yield
    except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if isinstance(e, SystemExit) or isinstance(e, Exception):
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
            raise Violation(f"{what}: {type(e).__name__}: {str(e)[:300]} [{where}]") from e
        raise


def require(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


def close(got, want, what, rtol=1e-9, atol=1e-12):
    """Same shape, same NaNs, equal within the tolerance."""
    import numpy as np
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    gn, wn = np.isnan(got), np.isnan(want)
    if not np.array_equal(gn, wn):
        i = tuple(int(k) for k in np.argwhere(gn != wn)[0])
        raise Violation(f"{what}: at {i} got {got[i]}, expected {want[i]} ({int((gn != wn).sum())} NaN mismatches)")
    with np.errstate(all="ignore"):
        bad = ~(gn | (got == want) | (np.abs(got - want) <= atol + rtol * np.abs(want)))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f"{what}: at {i} got {float(got[i])!r}, expected {float(want[i])!r} ({int(bad.sum())} differ)")


# ---- sub-checks ------------------------------------------------------------------------------------------------

class Sub:
    """name, quick/thorough number of cases, strategy (function returning one), run(case) -> info dict.

    info: {"nontrivial": bool, "labels": [..]}
    """

    def __init__(self, name, quick, thorough, strategy, run, max_shrinks=None):
        self.name, self.quick, self.thorough = name, quick, thorough
        self.strategy, self.run = strategy, run


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, bytes):
        return {"__hex__": x.hex()}
    return x


def dejson(x):
    if isinstance(x, dict):
        if set(x) == {"__hex__"}:
            return bytes.fromhex(x["__hex__"])
        return {k: dejson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dejson(v) for v in x]
    return x


def _short(x, depth=0):
    """A sample small enough to read."""
    if isinstance(x, dict):
        return {k: _short(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 8:
            return [_short(v, depth + 1) for v in x[:5]] + [f"... {len(x)} in all"]
        return [_short(v, depth + 1) for v in x]
    if isinstance(x, str) and len(x) > 80:
        return x[:60] + f"... {len(x)} characters"
    if isinstance(x, float):
        return round(x, 6) if math.isfinite(x) else str(x)
    return x


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0


def run_sub(hyp, sub, n, seed, deadline, stats):
    """Searches n cases. Returns None or (case, message)."""
    from hypothesis import given, settings, HealthCheck, Phase
    failure = {}
    harness_failure = {}

    def body(case):
        if time.monotonic() > deadline and not failure:
            stats.skipped += 1
            return
        js = _jsonable(case)
        try:
            info = sub.run(dejson(js))
        except Violation as e:
            failure["case"], failure["message"] = js, str(e)
            raise
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            harness_failure["case"], harness_failure["error"] = js, traceback.format_exc()
            raise HarnessError(str(e)) from e
        stats.evaluations += 1
        info = info or {}
        for lab in info.get("labels", ()):
            key = f"{sub.name}: {lab}"
            stats.labels[key] = stats.labels.get(key, 0) + 1
        if info.get("nontrivial", True):
            text = json.dumps(js, sort_keys=True)
            h = hashlib.sha1((sub.name + text).encode()).hexdigest()
            if h not in stats.nontrivial:
                stats.nontrivial.add(h)
                if sum(1 for s in stats.samples if s["sub_check"] == sub.name) < 2:
                    stats.samples.append({"sub_check": sub.name, "case": _short(js)})

    test = given(sub.strategy())(body)
    test = hyp.seed(seed * 1000003 + int(hashlib.sha1(sub.name.encode()).hexdigest()[:4], 16))(test)
    test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                    derandomize=False, print_blob=False,
                    phases=[Phase.explicit, Phase.generate, Phase.shrink],
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])(test)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stderr(null):
            test()
    except Violation:
        pass
    except HarnessError as e:
        raise HarnessError(harness_failure.get("error", "")) from e
    except BaseException as e:
        if failure and "Flaky" in type(e).__name__:
            # failed once and not again: report it, the saved case is the evidence
            pass
        else:
            raise
    if failure:
        return failure["case"], failure["message"]
    return None


def load_findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def shards(subs, tier):
    """The work, split into (sub, number of cases, index of the part): parts of all subs in turn."""
    out = []
    for sub in subs:
        n = sub.quick if tier == "quick" else sub.thorough
        parts = max(1, min(WORKERS if tier == "quick" else 4 * WORKERS, n // 12))
        out.append([(sub, n // parts + (i < n % parts), i) for i in range(parts)])
    most = max(len(v) for v in out)
    return [v[i] for i in range(most) for v in out if i < len(v)]


def work(hyp, sub, n, part, seed, deadline, path):
    """In a process of its own: searches one part and writes what it found to path."""
    global _scratch
    _scratch = os.path.join(scratch(), f"part.{sub.name}.{part}")
    os.makedirs(_scratch)
    os.chdir(_scratch)
    stats, t0 = Stats(), time.monotonic()
    out = {"error": None, "violation": None}
    try:
        out["violation"] = run_sub(hyp, sub, n, seed + 7919 * part, deadline, stats)
    except BaseException:
        out["error"] = traceback.format_exc()
    out.update(evaluations=stats.evaluations, nontrivial=sorted(stats.nontrivial), labels=stats.labels, samples=stats.samples,
               skipped=stats.skipped, seconds=time.monotonic() - t0)
    with open(path + ".part", "w") as f:
        json.dump(out, f)
    os.rename(path + ".part", path)
    os.chdir("/")
    shutil.rmtree(_scratch, ignore_errors=True)


def search(hyp, subs, tier, seed, deadline):
    """Runs the parts in parallel. Returns (stats, {sub name: (cases, seconds)}, None or (sub, case, message))."""
    import signal
    stats, per, violation, error = Stats(), {}, None, None
    todo, running = shards(subs, tier), {}
    try:
        while (todo or running) and not violation and not error:
            while todo and len(running) < WORKERS:
                sub, n, part = todo.pop(0)
                path = os.path.join(scratch(), f"result.{sub.name}.{part}.json")
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        work(hyp, sub, n, part, seed, deadline, path)
                        code = 0
                    finally:
                        os._exit(code)
                running[pid] = (sub, part, path)
            pid, _ = os.wait()
            if pid not in running:
                continue
            sub, part, path = running.pop(pid)
            if not os.path.exists(path):
                error = f"{sub.name}, part {part}: its process ended without a result"
                continue
            with open(path) as f:
                out = json.load(f)
            stats.evaluations += out["evaluations"]
            stats.skipped += out["skipped"]
            stats.nontrivial |= set(out["nontrivial"])
            for k, v in out["labels"].items():
                stats.labels[k] = stats.labels.get(k, 0) + v
            for v in out["samples"]:
                if sum(1 for w in stats.samples if w["sub_check"] == v["sub_check"]) < 3:
                    stats.samples.append(v)
            count, seconds = per.get(sub.name, (0, 0.0))
            per[sub.name] = (count + out["evaluations"], seconds + out["seconds"])
            if out["violation"]:
                violation = (sub, *out["violation"])
            elif out["error"]:
                error = f"{sub.name}, part {part}: {out['error']}"
    finally:
        for pid in running:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if error and not violation:
        raise HarnessError(error)
    return stats, per, violation


def check(pid, only=None):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hyp = setup_environment()
    mod = importlib.import_module("checks." + pid.lower())
    deadline = t0 + BUDGET_S[tier]
    stats, per, violation = search(hyp, [v for v in mod.SUBS if only in (None, v.name)], tier, seed, deadline)
    for name, (count, seconds) in per.items():
        print(f"{pid} {name}: {count} cases, {seconds:.1f} s of one core", flush=True)
    if violation:
        sub, case, message = violation

    code = 0
    if violation:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-{sub.name}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "sub_check": sub.name, "message": message, "case": case}, f)
        print(f"{pid} {sub.name}: {message}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        code = 1

    # the findings on record for this property: are they still there?
    for finding in load_findings()["findings"]:
        if finding["property"] == pid and not only and not code:
            if mod.FINDINGS[finding["id"]]():
                print(f"KNOWN-FINDING: property={pid} {finding['what_fails']}", flush=True)
            else:
                print(f"{pid}: finding {finding['id']} no longer reproduces")

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.nontrivial),
            "rule": mod.RULE,
            "samples": stats.samples,
            "labels": dict(sorted(stats.labels.items())),
            "skipped_for_time": stats.skipped,
            "sub_checks": [s.name for s in mod.SUBS],
            "processes": WORKERS,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    return code


def replay(path):
    with open(path) as f:
        saved = json.load(f)
    setup_environment()
    mod = importlib.import_module("checks." + saved["property"].lower())
    sub = [s for s in mod.SUBS if s.name == saved["sub_check"]][0]
    try:
        sub.run(dejson(saved["case"]))
    except Violation as e:
        print(e)
        print(f"VIOLATION property={saved['property']} replay={path}")
        return 1
    print("the property held on this case")
    return 0
