"""P23: update_salinity_mapping, set_calseries, calc_piecewisefit, plot_diagnostics, one after the other."""
import hashlib
import os
import pickle
import shutil
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat

from checks import p12
from vlib import figs, harness, maps, world as W
from vlib.gen import Stream
from vlib.harness import Sub, under_test, require, close, quiet

RULE = ("A case is an ocean as for P12 with two floats (some casts of each of which are among the reference data), "
        "file prefixes and postfixes, and a history in one process: the whole chain of the first float; then, in any "
        "order, the chain of the second float, the chain of the first over other reference data and tables of the same names (against a fresh interpreter), the chain of the first again in the same directories and again into empty "
        "output directories; float directories are nested, '/' or empty. Every file is hashed before and after each step. parallel: "
        "two to four floats in up to three processes at once, against one after the other. Non-trivial: something was mapped and calibrated, and the second float was too.")
ASSUMPTIONS = ["random numbers are used for the errors of the factors only, which are not compared",
               "diagnostic plots need something mapped, two profiles and three levels"]
OTHER = "5905678"
PLAIN = ["pcond_factor", "cal_SAL", "cal_COND", "sta_mean", "sta_rms", "sta_SAL", "sta_SAL_err", "time_deriv", "PROFILE_NO"]


def cases():
    return W.cases(n=st.sampled_from([3, 2, 4, 6]), levels=st.sampled_from([9, 6, 12]), casts=st.sampled_from([25, 40, 14]), nan=st.sampled_from([0, .05]),
                   n2=st.sampled_from([2, 3]), names=st.sampled_from(["default", "postfix", "prefix", "same"]), render=st.sampled_from([False, False, False, True]),
                   seps=st.booleans(), where=st.sampled_from(["plain", "nested", "slash", "empty"]), own=st.sampled_from([.5, 0, .8]), exclude=st.sampled_from([0, 100]), delta=st.sampled_from([600, 250]),
                   blank=st.sampled_from([None, None, "position", "remote", "salinity"]),
                   history=st.permutations(["other", "elsewhere", "again", "anew"]),
                   bounds=st.sampled_from([[[0, 5], [5, 20]], [[5, 20], [0, 5]], [[12, 2]], [[2, 9], [2, 4], [0, 30]]]), scales=st.sampled_from(["", "", "LONGITUDE", "LATITUDE", "AGE", "PHI"]), most=st.sampled_from([None, 1.0, 0.0, -1.0]),
                   fmt=st.sampled_from(["png", "eps", "pdf"]))


def hashes(root):
    out = {}
    for d, _, files in os.walk(root, followlinks=False):
        for f in files:
            p = os.path.join(d, f)
            if os.path.islink(p):
                st_ = os.stat(p)
                out[p] = ("link", os.readlink(p), st_.st_size, st_.st_mtime_ns)
            else:
                with open(p, "rb") as h:
                    out[p] = hashlib.sha1(h.read()).hexdigest()
    return out


def frame(before, after, allowed, what):
    """only the allowed files differ; every other is as it was"""
    for p in before:
        require(p in after, "%s removed %s", what, p)
        require(after[p] == before[p] or p in allowed, "%s changed %s", what, p)
    for p in after:
        require(p in before or p in allowed, "%s wrote %s", what, p)


def places(c, name, where):
    sep = lambda *v: os.path.normpath(os.sep.join(v))
    return {"source": sep(c["FLOAT_SOURCE_DIRECTORY"], where, name + c["FLOAT_SOURCE_POSTFIX"]),
            "mapped": sep(c["FLOAT_MAPPED_DIRECTORY"], where, c["FLOAT_MAPPED_PREFIX"] + name + c["FLOAT_MAPPED_POSTFIX"]),
            "series": sep(c["FLOAT_CALIB_DIRECTORY"], where, c["FLOAT_CALSERIES_PREFIX"] + name + c["FLOAT_CALIB_POSTFIX"]),
            "cal": sep(c["FLOAT_CALIB_DIRECTORY"], where, c["FLOAT_CALIB_PREFIX"] + name + c["FLOAT_CALIB_POSTFIX"])}


def chain(name, where, c, root, case, seed):
    """The four steps; returns the contents of the mapped and calibration files"""
    from pyowc.calibration import calc_piecewisefit, update_salinity_mapping
    from pyowc.configuration import set_calseries
    from pyowc.plot.dashboard import plot_diagnostics
    at = {k: os.path.normpath(v) for k, v in places(c, name, where).items()}
    keep = {k: repr(v) for k, v in c.items()}
    cwd = os.getcwd()

    def step(what, allowed, func):
        before, here = hashes(root), set(os.listdir(cwd))
        np.random.seed(seed[0])
        seed[0] += 1
        with under_test(what):
            out = func()
        frame(before, hashes(root), allowed, what)
        require(set(os.listdir(cwd)) <= here, "%s wrote %s in the working directory", what, sorted(set(os.listdir(cwd)) - here))
        require(os.getcwd() == cwd, "%s changed the working directory", what)
        require({k: repr(v) for k, v in c.items()} == keep, "%s changed the configuration", what)
        for p in allowed:
            require(os.path.exists(p), "%s did not write %s", what, p)
        return out
    step("update_salinity_mapping", {at["mapped"]}, lambda: update_salinity_mapping(where, c, name))
    step("set_calseries", {at["series"]}, lambda: set_calseries(where, name, c))
    if case["most"] is not None:
        from scipy.io import savemat
        d = {k: v for k, v in loadmat(at["series"]).items() if not k.startswith("__")}
        d["max_breaks"] = np.array([[case["most"]]])
        savemat(at["series"], d)
    step("calc_piecewisefit", {at["cal"]}, lambda: calc_piecewisefit(where, name, c))
    mapped, cal = loadmat(at["mapped"]), loadmat(at["cal"])
    src = loadmat(at["source"])
    levels = (np.isfinite(src["SAL"]) & np.isfinite(src["PTMP"])).sum(axis=0)
    if np.isfinite(mapped["la_mapped_sal"]).any() and src["SAL"].shape[1] > 1 and levels.max() >= 3:
        plots = os.path.normpath(c["FLOAT_PLOTS_DIRECTORY"])
        before, here = hashes(root), set(os.listdir(cwd))
        with figs.record(case["render"]) as saved, under_test("plot_diagnostics"):
            plot_diagnostics(where, name, c)
        mine = {os.path.normpath(v[0]) for v in saved}
        frame(before, hashes(root), mine, "plot_diagnostics")
        require(set(os.listdir(cwd)) <= here, "plot_diagnostics wrote in the working directory")
        require({k: repr(v) for k, v in c.items()} == keep, "plot_diagnostics changed the configuration")
        for p in mine:
            require(os.path.dirname(p) == plots and os.path.basename(p).startswith(name) and p.endswith("." + c["FLOAT_PLOTS_FORMAT"]), "figure saved as %s", p)
            require(os.path.getsize(p) > 0, "%s is empty", p)
        require(len(saved) == len(mine), "figures saved under the same name")
        some = bool(np.isfinite(cal["cal_SAL"]).any())
        want = 1 + 2 + 2 * len(c["THETA_BOUNDS"]) + some + 2 + 1
        require(len(mine) == want, "%s figures, expected %s: %s", len(mine), want, sorted(os.path.basename(p) for p in mine))
    return mapped, cal


def same(a, b, what):
    for k in list(p12.FIELDS) + list(p12.SETTINGS) + ["la_profile_no", "selected_hist"]:
        require(k in b[0], "%s: %s is missing", what, k)
        close(np.asarray(b[0][k], dtype=float), np.asarray(a[0][k], dtype=float), f"{what}: {k}", rtol=1e-9, atol=1e-12)
    for k in PLAIN:
        close(b[1][k], a[1][k], f"{what}: {k}", rtol=1e-9, atol=1e-12)


def configure(case, c):
    if case["names"] == "postfix":
        c.update({"FLOAT_SOURCE_POSTFIX": "_source.mat", "FLOAT_MAPPED_POSTFIX": "_m.mat", "FLOAT_CALIB_POSTFIX": "_c.mat"})
    elif case["names"] == "prefix":
        c.update({"FLOAT_MAPPED_PREFIX": "mapped_", "FLOAT_CALIB_PREFIX": "calibrated_", "FLOAT_CALSERIES_PREFIX": "series-"})
    elif case["names"] == "same":       # one directory for everything
        d = c["FLOAT_SOURCE_DIRECTORY"]
        c.update({"FLOAT_MAPPED_DIRECTORY": d, "FLOAT_CALIB_DIRECTORY": d})
    c["FLOAT_PLOTS_FORMAT"] = case["fmt"]
    if case["seps"]:
        for k in ("FLOAT_SOURCE_DIRECTORY", "FLOAT_MAPPED_DIRECTORY", "FLOAT_CALIB_DIRECTORY"):
            c[k] += os.sep
        c["FLOAT_PLOTS_DIRECTORY"] = c["FLOAT_PLOTS_DIRECTORY"].rstrip(os.sep)
    return c


FRESH = """
import pickle, sys
with open(sys.argv[1], "rb") as f:
    path, args = pickle.load(f)
sys.path[:] = path
from checks import p23
p23._work(args)
"""


def elsewhere(w, c, root, where, case, seed):
    """The same float over other reference data, tables and topography under the same names: as in a process that has
    done nothing before"""
    s = Stream(case["raw"][9:])
    new = {k: v.replace(root, os.path.join(root, "else")) if isinstance(v, str) else v for k, v in c.items()}
    place = os.path.join(root, "else")
    keep_flags, keep_casts = w.flags, w.casts
    w.flags = w.flags[:, s.perm(3)]
    w.casts = [dict(k, sal=k["sal"] + .05 * s.normal()) for k in keep_casts]
    try:
        with quiet():
            w.write(place)
            maps.write(os.path.join(place, "const"), Stream(case["raw"][11:]), w.lon0 if w.lon0 < 180 else w.lon0 - 360, w.lat0, 1)
            for key in ("SOURCE", "MAPPED", "CALIB"):
                os.makedirs(new[f"FLOAT_{key}_DIRECTORY"] + os.sep + where, exist_ok=True)
            own, at = os.path.join(place, "source", W.DIR, W.FLOAT + ".mat"), places(new, W.FLOAT, where)["source"]
            if os.path.normpath(own) != os.path.normpath(at):
                shutil.move(own, at)
    finally:
        w.flags, w.casts = keep_flags, keep_casts
    got = chain(W.FLOAT, where, new, root, dict(case, most=None), seed)
    fresh = dict(new)
    for key in ("MAPPED", "CALIB"):
        fresh[f"FLOAT_{key}_DIRECTORY"] = os.path.join(root, "fresh", key.lower())
        os.makedirs(fresh[f"FLOAT_{key}_DIRECTORY"] + os.sep + where)
    with open(os.path.join(root, "fresh", "args"), "wb") as f:
        pickle.dump((sys.path, (where, fresh, W.FLOAT)), f)
    p = subprocess.run([sys.executable, "-c", FRESH, os.path.join(root, "fresh", "args")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    require(p.returncode == 0, "in a process of its own: %s", p.stdout[-500:])
    at = places(fresh, W.FLOAT, where)
    same(tuple(loadmat(at[k]) for k in ("mapped", "cal")), got, "compared with a process of its own")


def run(case):
    w = W.World(case)
    other = W.World(dict(case, n=case["n2"], raw=case["raw"][::-1], blank=None))
    for a, b in (("lat", w.lat0), ("long", w.lon0)):       # the other float is in the same region
        v = getattr(other, a)
        v = v - (other.lat0 if a == "lat" else other.lon0) + b
        setattr(other, a, W.off_edge(v) if a == "lat" else np.mod(W.off_edge(np.mod(v, 360)), 360))
    tag = Stream(case["raw"][3:])
    for i, k in enumerate(w.casts):
        if k["kind"] == "argo" and not k["own"] and tag.flag(.4):
            k["source"] = "argo_%s_%d" % (OTHER, i)
    if not p12.clear_of_edges(w) or not p12.clear_of_edges(other):
        return {"nontrivial": False, "labels": ["box edge"]}
    root = harness.fresh_dir("whole")
    seed = [1]
    where = {"plain": W.DIR, "nested": os.path.join("dac", "more"), "slash": os.sep, "empty": ""}[case["where"]]
    try:
        with quiet():
            c = configure(case, w.write(root))
            c["THETA_BOUNDS"] = [list(v) for v in case["bounds"]]
            if case["scales"]:      # a short scale above the long one
                a, b = ("MAPSCALE_%s_%s" % (case["scales"], v) for v in ("LARGE", "SMALL"))
                c[a], c[b] = c[b], c[a]
            maps.write(os.path.join(root, "const"), Stream(case["raw"][5:]), w.lon0 if w.lon0 < 180 else w.lon0 - 360, w.lat0, 1)
            for key in ("SOURCE", "MAPPED", "CALIB"):
                os.makedirs(c[f"FLOAT_{key}_DIRECTORY"] + os.sep + where, exist_ok=True)
            own = os.path.join(root, "source", W.DIR, W.FLOAT + ".mat")
            at = places(c, W.FLOAT, where)["source"]
            shutil.move(own, own + ".tmp")
            other.write_float(root)
            shutil.move(own, places(c, OTHER, where)["source"])
            shutil.move(own + ".tmp", at)
        first = chain(W.FLOAT, where, c, root, case, seed)
        second = None
        count = 0
        for what in case["history"]:
            if what == "other":
                mine = {k: v for k, v in hashes(root).items() if W.FLOAT in os.path.basename(k)}
                second = chain(OTHER, where, c, root, case, seed)
                now = hashes(root)
                for k, v in mine.items():
                    require(now.get(k) == v, "processing another float changed %s", k)
            elif what == "elsewhere":
                elsewhere(w, c, root, where, case, seed)
            elif what == "again":
                same(first, chain(W.FLOAT, where, c, root, case, seed), "run again")
            else:
                count += 1
                new = dict(c)
                for key in ("MAPPED", "CALIB", "PLOTS"):
                    new[f"FLOAT_{key}_DIRECTORY"] = os.path.join(root, "anew", key.lower())
                    os.makedirs(os.path.join(root, "anew", key.lower()) + os.sep + where, exist_ok=True)
                same(first, chain(W.FLOAT, where, new, root, case, seed), "run from scratch")
    finally:
        harness.drop_dir(root)
    done = lambda v: bool(np.isfinite(v[0]["la_mapped_sal"]).any() and np.isfinite(v[1]["cal_SAL"]).any())
    return {"nontrivial": done(first) and done(second), "labels": [case["names"], "first " + case["history"][0], "most %s" % case["most"]]
            + ["calibrated" if done(first) else "nothing calibrated"] + ["rendered"] * case["render"]}


# -- sub-check: parallel

def parallel_cases():
    return W.cases(n=st.sampled_from([2, 3]), levels=st.sampled_from([5, 8]), casts=st.sampled_from([25, 18]), floats=st.sampled_from([3, 2, 4]),
                   own=st.sampled_from([.5, 0]), delta=st.sampled_from([600, 250]), exclude=st.sampled_from([0, 100]), workers=st.sampled_from([2, 3, 1]),
                   one=st.booleans())


def _work(args):
    from pyowc.calibration import calc_piecewisefit, update_salinity_mapping
    from pyowc.configuration import set_calseries
    where, c, name = args
    with quiet():
        update_salinity_mapping(where, c, name)
        set_calseries(where, name, c)
        np.random.seed(5)
        calc_piecewisefit(where, name, c)


def run_parallel(case):
    """Floats in processes of their own at the same time, each process taking one after the other, as start_with_pycharm.py does"""
    worlds = [W.World(dict(case, raw=case["raw"][k:] + case["raw"][:k])) for k in range(case["floats"])]
    w = worlds[0]
    names = ["59012%02d" % (34 + k) for k in range(len(worlds))]
    for o in worlds[1:]:
        o.lat, o.long = W.off_edge(o.lat - o.lat0 + w.lat0), np.mod(W.off_edge(np.mod(o.long - o.lon0 + w.lon0, 360)), 360)
    tag = Stream(case["raw"][7:])
    for i, k in enumerate(w.casts):
        if k["kind"] == "argo" and case["own"]:
            k["source"] = "argo_%s_%d" % (names[tag.integer(0, len(names) - 1)] if tag.flag(.6) else "1900001", i)
    if not all(p12.clear_of_edges(o) for o in worlds):
        return {"nontrivial": False, "labels": ["box edge"]}
    root = harness.fresh_dir("pool")
    try:
        with quiet():
            c = w.write(root)
            for o, name in reversed(list(zip(worlds, names))):
                o.write_float(root)
                at = places(c, name, W.DIR)["source"]
                if name != W.FLOAT:
                    shutil.move(places(c, W.FLOAT, W.DIR)["source"], at)
        if not case["one"]:     # (otherwise each process has loaded nothing yet, and they start from the same state)
            with under_test("mapping"):
                _work((W.DIR, dict(c, FLOAT_MAPPED_PREFIX="x_", FLOAT_CALIB_PREFIX="xcal_", FLOAT_CALSERIES_PREFIX="xs_"), names[0]))
        pids = []
        for k in range(case["workers"]):
            pid = os.fork()
            if pid == 0:
                try:
                    for name in names[k::case["workers"]]:
                        _work((W.DIR, c, name))
                    os._exit(0)
                except BaseException:
                    os._exit(3)
            pids.append(pid)
        codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
        require(not any(codes), "processes ended with %s", codes)
        alone = dict(c)
        for key in ("MAPPED", "CALIB"):
            alone[f"FLOAT_{key}_DIRECTORY"] = os.path.join(root, "alone", key.lower())
            os.makedirs(os.path.join(alone[f"FLOAT_{key}_DIRECTORY"], W.DIR))
        some = 0
        for name in names:
            with under_test("run alone"):
                _work((W.DIR, alone, name))
                at, own = places(c, name, W.DIR), places(alone, name, W.DIR)
                a, b = [loadmat(own[k]) for k in ("mapped", "cal")], [loadmat(at[k]) for k in ("mapped", "cal")]
                same(a, b, "float %s among others" % name)
                some += bool(np.isfinite(a[0]["la_mapped_sal"]).any())
    finally:
        harness.drop_dir(root)
    return {"nontrivial": some > 1 and case["workers"] > 1, "labels": ["%d floats, %d processes" % (len(names), case["workers"])]}


SUBS = [Sub("chain", 24, 500, cases, run), Sub("parallel", 40, 1200, parallel_cases, run_parallel)]
FINDINGS = {}
