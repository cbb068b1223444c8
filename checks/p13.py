"""P13: update_salinity_mapping over several runs."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat, savemat

from checks import p12
from vlib import harness, ref, world as W
from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close, quiet

RULE = ("A case is an ocean as for P12 with a float of 3 to 7 profiles and a history of 2 to 5 runs. Before each run the "
        "float file is rewritten with some of the profiles (all so far, or only some; new ones, none new), in any column "
        "order, with as many levels as have appeared so far; in some histories the mapping scales, flags, pressure "
        "difference, excluded layer and use of the front are changed between runs, and in some the file loses what versions without the front did not write. After every run the file is compared with an "
        "independent mapping of each profile under the settings of the run in which it first appeared, with the file of "
        "the run before (bit for bit), and at the end with a single run of the code over everything. Non-trivial: at "
        "least two runs mapped something new, and something was mapped before the last of them.")
ASSUMPTIONS = ["as for P12", "the number of levels of the float file never shrinks and the profiles already delivered do not change"]

CHANGES = {"MAPSCALE_LONGITUDE_LARGE": 1.1, "MAPSCALE_LATITUDE_LARGE": .9, "MAPSCALE_LONGITUDE_SMALL": .9,
           "MAPSCALE_LATITUDE_SMALL": 1.1, "MAPSCALE_AGE_LARGE": 1.2, "MAPSCALE_AGE_SMALL": .8, "MAPSCALE_PHI_LARGE": 1.3,
           "MAPSCALE_PHI_SMALL": .7, "MAP_P_DELTA": 1.5}


def cases():
    return W.cases(n=st.sampled_from([4, 3, 5, 7]), levels=st.sampled_from([4, 3, 5]), casts=st.sampled_from([18, 25, 12]),
                   order=st.sampled_from(["shuffled", "shuffled", "up"]), delta=st.sampled_from([600, 250]), exclude=st.sampled_from([0, 100]),
                   wide=st.sampled_from([1.6, 1.0]), flags=st.just(1.0), qc=st.sampled_from([0.0, 0.0, 0.0, 0.0, 5.2]),
                   runs=st.sampled_from([3, 2, 4, 5]), change=st.booleans(),
                   grow=st.booleans(), part=st.booleans(), history=raw(96))


def plan(case, w):
    """Runs: (columns in the order of the file, levels, settings)"""
    s = Stream(case["history"])
    n, m = w.pres.shape[1], w.pres.shape[0]
    first = s.integers(n, 0, case["runs"] - 1)
    first[s.integer(0, n - 1)] = 0
    depth = sorted(s.integers(case["runs"], 1, m)) if case["grow"] else [m] * case["runs"]
    for j in range(n):          # levels that have not appeared yet are missing in the profiles that have
        for v in (w.pres, w.ptmp, w.sal, w.temp):
            v[depth[first[j]]:, j] = np.nan
    runs = []
    for r in range(case["runs"]):
        new = [j for j in range(n) if first[j] == r]
        old = [j for j in range(n) if first[j] < r]
        if case["part"]:
            old = [j for j in old if s.flag(.5)]
        k = np.array(new + old, dtype=int)
        if k.size == 0:         # nothing delivered: the file of the run before is run again
            k = runs[-1][0]
        k = k[s.perm(len(k))] if case["order"] == "shuffled" else k[np.argsort(w.number[k], kind="stable")]
        change = {}
        if r and case["change"]:
            change = {key: f for key, f in CHANGES.items() if s.flag(.6)}
            if s.flag(.4):
                change["MAP_USE_PV"] = None
            if s.flag(.4):
                change["MAP_P_EXCLUDE"] = None
            if case["saf"] and s.flag(.4):
                change["MAP_USE_SAF"] = None
        runs.append((k, depth[r], change, new, s.flag(.25)))
    return runs


def changed(config, change):
    c = dict(config)
    for key, f in change.items():
        if key in ("MAP_USE_PV", "MAP_USE_SAF"):
            c[key] = 1 - c[key]
        elif key == "MAP_P_EXCLUDE":
            c[key] = 200 if c[key] != 200 else 50
        else:
            c[key] = c[key] * f
    return c


def age(config):
    """The mapped file, as a version without the front constraint wrote it"""
    path = p12.mapped_file(config)
    data = {k: v for k, v in loadmat(path).items() if not k.startswith("__") and k != "use_saf"}
    savemat(path, data)


def run(case):
    from pyowc.calibration import update_salinity_mapping
    w = W.World(case)
    runs = plan(case, w)
    if not p12.clear_of_edges(w):
        return {"nontrivial": False, "labels": ["box edge"]}
    root = harness.fresh_dir("ocean")
    want, settings, active, labels = {}, {}, [], set()
    try:
        with quiet():
            config = w.write(root)
        previous, aged = None, set()
        for k, levels, change, new, old in runs:
            if old and previous is not None and not any(settings[n]["MAP_USE_SAF"] for n in settings):
                age(config)
                aged |= set(want)
                labels.add("file of an older version")
            config = changed(config, change)
            if change:
                labels.add("settings changed")
            w.write_float(root, columns=k, levels=levels)
            try:
                part = p12.expected(w, config, columns=[j for j in k if w.number[j] not in want])
            except ref.Near:
                return {"nontrivial": False, "labels": ["near a decision"]}
            for num, v in part.items():
                want[num], settings[num] = v, dict(config)
            count = sum(len(v["levels"]) for v in part.values())
            if count:
                active.append(count)
            if not part:
                labels.add("nothing new")
            with under_test("update_salinity_mapping"):
                update_salinity_mapping(W.DIR, config, W.FLOAT)
                got = p12.load(config)
                unaged(got, want, aged)
                check(w, want, settings, got, levels)
                if previous is not None:
                    kept(previous, got, bool(part))
            previous = got
        single = len({tuple(sorted((k, str(v)) for k, v in c.items())) for c in settings.values()}) == 1
        if single:
            labels.add("compared with a single run")
            other = dict(next(iter(settings.values())), FLOAT_MAPPED_PREFIX="single_")
            every = np.array([j for j in range(len(w.number)) if w.number[j] in want])
            w.write_float(root, columns=every, levels=levels)
            with under_test("update_salinity_mapping"):
                update_salinity_mapping(W.DIR, other, W.FLOAT)
                one = p12.load(other)
                for f in p12.FIELDS + list(p12.SETTINGS) + ["la_profile_no"]:
                    close(got[f], one[f], f + " against a single run", rtol=1e-9, atol=1e-12)
    finally:
        harness.drop_dir(root)
    labels |= {f"runs with something new mapped: {len(active)}", case["order"]} | ({"levels added"} if case["grow"] else set())
    return {"nontrivial": len(active) > 1, "labels": sorted(labels)}


def unaged(got, want, aged):
    """A profile without mapped level may have 0 for the front, where the file of an older version had none"""
    v = p12.row(got, "use_saf", len(want))
    for k, n in enumerate(sorted(want)):
        if n in aged and not want[n]["levels"] and v[k] == 0:
            v[k] = math.nan
    got["use_saf"] = v.reshape(1, -1)


def check(w, want, settings, got, levels):
    """P12's comparison, with the settings of each profile"""
    numbers = sorted(want)
    p12.compare(w, want, {**got, **{k: np.full(len(numbers), np.nan) for k in p12.SETTINGS}}, {k: math.nan for k in p12.SETTINGS.values()}, levels)
    for key, name in p12.SETTINGS.items():
        close(p12.row(got, key, len(numbers)), [settings[n][name] if want[n]["levels"] else math.nan for n in numbers], key, rtol=1e-12)
    p12.selected(w, want, got)


def kept(before, after, new):
    """What was in the file of the run before is there, bit for bit"""
    a, b = (x["la_profile_no"].ravel().tolist() for x in (before, after))
    where = [b.index(v) for v in a]
    for f in p12.FIELDS:
        m = before[f].shape[0]
        close(after[f][:m][:, where], before[f], f + " of earlier profiles", rtol=0, atol=0)
        require(np.isnan(after[f][m:][:, where]).all(), "%s of earlier profiles on levels added", f)
    for f in p12.SETTINGS:
        close(p12.row(after, f, len(b))[where], p12.row(before, f, len(a)), f + " of earlier profiles", rtol=0, atol=0)
    rows = {tuple(r) for r in np.asarray(after["selected_hist"], dtype=float).reshape(-1, 3)}
    gone = [r for r in np.asarray(before["selected_hist"], dtype=float).reshape(-1, 3) if tuple(r) not in rows]
    require(not gone, "selected positions lost: %s", gone)
    if not new:
        require(len(rows) == len(np.asarray(before["selected_hist"], dtype=float).reshape(-1, 3)), "selected positions added")


SUBS = [Sub("history", 170, 2500, cases, run)]
FINDINGS = {}
