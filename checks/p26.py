"""P26: update_salinity_mapping, set_calseries and calc_piecewisefit, stopped on the way."""
import collections
import os
import shutil
import sys

import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat, savemat

from checks import p12, p23
from vlib import harness, world as W
from vlib.gen import Stream, raw
from vlib.harness import Sub, Violation, under_test, require, close, quiet

RULE = ("A case is an ocean as for P12 with a float of 2 to 5 profiles, of which some may have been mapped and calibrated "
        "before (with an operator's choices in the series file), and for each of mapping, series and calibration one to "
        "three stops at generated points: a KeyboardInterrupt raised at the n-th line run in a function of the code, or in the "
        "writing of a .mat file, in this process, or a forked process that ends there at once, losing its buffers. After each stop every file is compared with what was there "
        "before and with an uninterrupted run in a copy of the directories; then the step is run to its end. Non-trivial: "
        "something is mapped, and at least three stops took effect, one of them in a mapping run. sites: a small float, and "
        "for each step 40 interrupts, each at another line of the code (any of the times it is run), whatever function it is in; each has to "
        "end the run and leave the file as it was or whole.")
ASSUMPTIONS = ["as for P12", "stops are between lines of the package and of scipy's .mat reader and writer, not within other libraries; each line up to its 40th time",
               "files beside the outputs that a killed process leaves under other names are not judged",
               "loss of power (data not yet on the disk) is not simulated"]
STEPS = ["mapping", "series", "calibration"]


def cases():
    return W.cases(n=st.sampled_from([3, 2, 5]), levels=st.sampled_from([5, 8]), casts=st.sampled_from([18, 25]),
                   flags=st.just(1.0), qc=st.just(0.0), wide=st.sampled_from([1.6, 1.0]), delta=st.sampled_from([600, 250]), exclude=st.sampled_from([0, 100]),
                   blank=st.sampled_from([None, None, "position", "remote"]), before=st.sampled_from(["part", "none", "all"]),
                   stops=st.lists(st.tuples(st.sampled_from(["interrupt", "kill"]), st.sampled_from(["reading", "writing", "any"]), raw(16)),
                                  min_size=9, max_size=9), count=st.tuples(st.integers(2, 5), st.integers(1, 2), st.integers(1, 2)), operator=raw(32))


WRITING = "savemat"


TOOL, MON, MOST = 4, sys.monitoring, 40


class Stop:
    """Counts the lines run in the package and scipy's .mat files, by function (since savemat was called: as WRITING) or by
    place, each line up to MOST times, and acts at the n-th of one"""

    def __init__(self, name=None, at=None, kill=False, sites=False):
        self.name, self.at, self.kill, self.sites, self.done = name, at, kill, sites, False
        self.n, self.lines, self.known, self.writing = collections.Counter(), collections.Counter(), {}, False
        self.package = os.path.join(os.path.realpath(harness.REPO), "pyowc") + os.sep

    def mine(self, code):
        if code not in self.known:
            name = code.co_filename
            self.known[code] = os.path.realpath(name).startswith(self.package) or os.path.join("scipy", "io", "matlab") in name
        return self.known[code]

    def __call__(self, code, line):
        if not self.mine(code):
            return MON.DISABLE
        place = (os.path.basename(code.co_filename), code.co_name, line)
        self.lines[place] += 1
        self.writing = self.writing or code.co_name == WRITING
        name = "%s:%s:%d" % place if self.sites else WRITING if self.writing else code.co_name
        self.n[name] += 1
        if name == self.name and self.n[name] == self.at:
            self.done = True
            if self.kill:
                os._exit(137)
            MON.set_events(TOOL, 0)
            raise KeyboardInterrupt("stopped by the check")
        return MON.DISABLE if self.lines[place] >= MOST else None

    def __enter__(self):
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, "stops")
        MON.register_callback(TOOL, MON.events.LINE, self)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
        return self

    def __exit__(self, *what):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)


def forget():
    """Clear the function caches of the package: a run in a new process starts without them"""
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "pyowc":
            for v in list(vars(m).values()):
                if hasattr(v, "cache_clear"):
                    v.cache_clear()


def count(func, sites=False):
    with Stop(sites=sites) as s:
        func()
    return s.n


def stop(func, name, at, kill, sites=False):
    """Whether the stop took effect"""
    if kill:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                with Stop(name, at, True):
                    func()
                os._exit(0)
            except BaseException:
                os._exit(3)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        require(code in (0, 137), "the run failed in a process of its own")
        return code == 137
    s = Stop(name, at, sites=sites)
    try:
        with s:
            func()
    except KeyboardInterrupt:
        return True
    except Exception:       # (an error because of the interrupt: the run has ended as well)
        if not s.done:
            raise
        return True
    require(not s.done, "an interrupt (at %s, number %s) did not end the run", name, at)
    return False


def choose(total, where, at):
    """(function, number of the event)"""
    s = Stream(at)
    if where == "writing" and total[WRITING]:
        return WRITING, s.integer(1, total[WRITING])
    names = sorted(n for n in total if n != WRITING)
    if where == "reading":
        names = [n for n in names if "get_" in n or "read" in n or "load" in n] or names
    name = names[s.integer(0, len(names) - 1)]
    return name, s.integer(1, total[name])


def contents(path):
    return {k: v for k, v in loadmat(path).items() if not k.startswith("__")}


def equal(path, want):
    """'' or what differs"""
    try:
        got = contents(path)
    except Exception as e:
        return "%s cannot be read: %s" % (os.path.basename(path), e)
    if set(got) != set(want):
        return "%s has %s" % (os.path.basename(path), sorted(set(got) ^ set(want)))
    for k, v in want.items():
        if k == "profile_index":        # (a counter of the run itself)
            continue
        try:
            if v.dtype == object:
                require(repr(got[k]) == repr(v), "%s", k)
            else:
                close(got[k], v, k, rtol=1e-9, atol=1e-12)
        except Violation as e:
            return "%s: %s" % (os.path.basename(path), e)
    return ""


def edit(path, s):
    """What an operator may have chosen"""
    d = contents(path)
    d["calseries"] = d["calseries"].copy()
    d["calseries"][..., s.integer(0, d["calseries"].size - 1):] = 2
    d["max_breaks"] = np.array([[float(s.integer(-1, 1))]])
    d["use_percent_gt"] = np.array([[s.u(None, .2, .8)]])
    savemat(path, d)


def run(case):
    from pyowc.calibration import calc_piecewisefit, update_salinity_mapping
    from pyowc.configuration import set_calseries
    w = W.World(case)
    if not p12.clear_of_edges(w):
        return {"nontrivial": False, "labels": ["box edge"]}
    root = harness.fresh_dir("stop")
    labels, hits = set(), []

    def steps(c):
        def fit():
            np.random.seed(3)
            calc_piecewisefit(W.DIR, W.FLOAT, c)
        return {"mapping": lambda: update_salinity_mapping(W.DIR, c, W.FLOAT), "series": lambda: set_calseries(W.DIR, W.FLOAT, c), "calibration": fit}

    def place(c, step):
        return p23.places(c, W.FLOAT, W.DIR)[{"mapping": "mapped", "series": "series", "calibration": "cal"}[step]]
    try:
        with quiet():
            c = w.write(root)
        other = dict(c)
        for k in ("MAPPED", "CALIB"):
            other[f"FLOAT_{k}_DIRECTORY"] = os.path.join(root, "copy", k.lower())
        s = Stream(case["operator"])
        if case["before"] != "none":
            if case["before"] == "part":
                n = len(w.number)
                w.write_float(root, columns=np.sort(s.perm(n)[:s.integer(1, n - 1)]))
            with under_test("first run"):
                func = steps(c)
                func["mapping"](), func["series"]()
                edit(place(c, "series"), s)
                func["calibration"]()
            w.write_float(root)
        for k in ("MAPPED", "CALIB"):
            shutil.copytree(c[f"FLOAT_{k}_DIRECTORY"], other[f"FLOAT_{k}_DIRECTORY"])
        with under_test("uninterrupted run"):
            func = steps(other)
            total = {k: count(func[k]) for k in STEPS}
            want = {k: contents(place(other, k)) for k in STEPS}
        func = steps(c)
        stops = iter(case["stops"])
        known = set(p23.hashes(root)) | {place(c, k) for k in STEPS}
        for k, step in enumerate(STEPS):
            path = place(c, step)
            for _ in range(case["count"][k]):
                kind, where, at = next(stops)
                name, n = choose(total[step], where, at)
                old = None
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        old = f.read()
                before = p23.hashes(root)
                if at[0] % 2:
                    forget()
                with under_test(step):
                    hit = stop(func[step], name, n, kind == "kill")
                what = "%s %s" % (step, "killed" if kind == "kill" else "interrupted")
                after = p23.hashes(root)
                p23.frame({p: v for p, v in before.items() if p in known}, {p: v for p, v in after.items() if p in known or os.path.dirname(p) != os.path.dirname(path)},
                          {path}, what)
                require(os.path.exists(path) or old is None, "%s: %s is gone", what, os.path.basename(path))
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        same = f.read() == old
                    if not same:
                        wrong = equal(path, want[step])
                        require(not wrong, "%s left neither what was there nor the whole result: %s", what, wrong)
                elif not hit:
                    require(False, "%s ended without a result", step)
                if hit:
                    hits.append(step)
                    labels.add(what + " " + where)
            with under_test(step + ", run again"):
                func[step]()
            wrong = equal(path, want[step])
            require(not wrong, "%s run again after a stop: %s", step, wrong)
    finally:
        harness.drop_dir(root)
    mapped = np.isfinite(want["mapping"]["la_mapped_sal"]).any()
    return {"nontrivial": bool(mapped) and len(hits) >= 3 and "mapping" in hits, "labels": sorted(labels) + ["before: " + case["before"]]}


# -- sub-check: sites

PLACES = 40     # of each step, in each case


def site_cases():
    return W.cases(n=st.sampled_from([2, 1]), levels=st.sampled_from([4, 6]), casts=st.sampled_from([14, 20]), flags=st.just(1.0), qc=st.just(0.0),
                   wide=st.just(1.6), delta=st.sampled_from([600, 250]), exclude=st.just(0), blank=st.just(None), spots=raw(400), before=st.booleans())


def run_sites(case):
    """Interrupts at places of the code (every k-th of those passed in a run), whatever function they are in"""
    from pyowc.calibration import calc_piecewisefit, update_salinity_mapping
    from pyowc.configuration import set_calseries
    w = W.World(case)
    if not p12.clear_of_edges(w):
        return {"nontrivial": False, "labels": ["box edge"]}
    root = harness.fresh_dir("site")
    s = Stream(case["spots"])
    hits = {}
    try:
        with quiet():
            c = w.write(root)

        def fit():
            np.random.seed(3)
            calc_piecewisefit(W.DIR, W.FLOAT, c)
        at = p23.places(c, W.FLOAT, W.DIR)
        for step, key, func in (("mapping", "mapped", lambda: update_salinity_mapping(W.DIR, c, W.FLOAT)),
                                ("series", "series", lambda: set_calseries(W.DIR, W.FLOAT, c)), ("calibration", "cal", fit)):
            path = at[key]
            old = None
            if case["before"] and step == "mapping" and len(w.number) > 1:
                w.write_float(root, columns=[0])
                with under_test(step):
                    func()
                w.write_float(root)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    old = f.read()

            def restore():
                forget()
                if old is None:
                    if os.path.exists(path):
                        os.remove(path)
                else:
                    with open(path, "wb") as f:
                        f.write(old)
            restore()
            with under_test(step):
                total = count(func, sites=True)
            want = contents(path)
            if old is None and case["before"]:      # (an earlier result is there)
                with open(path, "rb") as f:
                    old = f.read() if step != "mapping" else None
            restore()
            before = p23.hashes(root)
            n = 0
            places = sorted(total)
            step_ = max(1, len(places) // PLACES)
            for site in places[s.integer(0, step_ - 1)::step_]:
                k = s.integer(1, total[site])
                with under_test(step):
                    hit = stop(func, site, k, False, sites=True)
                what = "%s, interrupted at %s (number %s)" % (step, site, k)
                after = p23.hashes(root)
                p23.frame({p: v for p, v in before.items() if p != path}, {p: v for p, v in after.items() if p in before and p != path}, set(), what)
                if os.path.exists(path):
                    if after[path] != before.get(path):
                        wrong = equal(path, want)
                        require(not wrong, "%s left neither what was there nor the whole result: %s", what, wrong)
                else:
                    require(old is None, "%s: %s is gone", what, os.path.basename(path))
                n += hit
                if hit and after.get(path) == before.get(path):
                    forget()
                else:
                    restore()
            hits[step] = n
            restore()
            with under_test(step + ", run again"):
                func()
            wrong = equal(path, want)
            require(not wrong, "%s run again after the stops: %s", step, wrong)
            if step == "series":        # (few breaks: many fits are made)
                d = contents(path)
                d["max_breaks"] = np.array([[float(s.integer(-1, 1))]])
                savemat(path, d)
    finally:
        harness.drop_dir(root)
    some = np.isfinite(loaded(want, "cal_SAL")).any()
    return {"nontrivial": bool(some), "labels": ["%s: over %d stops" % (k, v // 10 * 10) for k, v in hits.items()]}


def loaded(d, key):
    return np.asarray(d.get(key, np.nan), dtype=float)


SUBS = [Sub("stops", 140, 4000, cases, run), Sub("sites", 48, 1000, site_cases, run_sites)]
FINDINGS = {}
