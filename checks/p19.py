"""P19: set_calseries."""
import os

import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat, savemat

from vlib import harness
from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("A case is a history of 1 to 6 steps on one float: the float file appears or gains profiles (at the end or in "
        "between, in any column order), profiles lose all their salinity, temperature or pressure, the operator edits the series file (flags, "
        "break points, limits, bounds with none, one or two values, required fraction, an older file without the "
        "fraction, flags in another order), and set_calseries runs, once or twice. Non-trivial: a run that finds a series file lacking "
        "profiles, or settings that differ from the defaults.")
ASSUMPTIONS = ["profiles are never removed from the float file",
               "a series file that lacks profiles is in order of profile number"]

BOUNDS = ("use_theta_lt", "use_theta_gt", "use_pres_lt", "use_pres_gt")


@st.composite
def cases(draw):
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        steps.append({"grow": draw(st.sampled_from([0, 0, 1, 2, 5])), "between": draw(st.booleans()),
                      "blank": draw(st.sampled_from([None, None, "SAL", "TEMP", "PRES", "some"])),
                      "edit": draw(st.sampled_from([None, None, "flags", "settings", "old", "shuffle", "bounds"])),
                      "twice": draw(st.booleans()), "mix": draw(st.sampled_from([False, False, True]))})
    return {"raw": draw(raw(384)), "first": draw(st.integers(1, 6)), "steps": steps, "dir": draw(st.sampled_from(["", "fd"])),
            "cycle0": draw(st.booleans())}


def run(case):
    from pyowc.configuration import set_calseries
    s = Stream(case["raw"])
    root = harness.fresh_dir("cal")
    src, cal = os.path.join(root, "src"), os.path.join(root, "cal")
    for d in (src, cal):
        os.makedirs(os.path.join(d, case["dir"]), exist_ok=True)
    config = {"FLOAT_SOURCE_DIRECTORY": src, "FLOAT_SOURCE_POSTFIX": ".mat", "FLOAT_CALIB_DIRECTORY": cal,
              "FLOAT_CALSERIES_PREFIX": "calseries_", "FLOAT_CALIB_POSTFIX": ".mat", "FLOAT_MAPPED_POSTFIX": ".mat",
              "FLOAT_CALIB_PREFIX": "cal_"}
    name = "3900%03d" % s.integer(0, 999)
    source = os.path.join(src, case["dir"], name + ".mat")
    series = os.path.join(cal, case["dir"], "calseries_" + name + ".mat")
    K = 3
    numbers = [0 if case["cycle0"] else 3]
    for _ in range(case["first"] - 1):
        numbers.append(numbers[-1] + s.integer(1, 4))
    data = {}        # profile number -> {field: column}

    def column():
        return {f: np.where(s.flags(K, .3), np.nan, s.u(K, 2, 30)) for f in ("SAL", "TEMP", "PRES", "PTMP")}

    def fresh(number):
        c = column()
        for f in c:
            if np.isnan(c[f]).all():
                c[f][s.integer(0, K - 1)] = 5.0
        data[number] = c
    for v in numbers:
        fresh(v)
    model = None
    interesting = False
    labels = set()
    try:
        for step in case["steps"]:
            for _ in range(step["grow"]):
                free = [v for v in range(numbers[0], numbers[-1]) if v not in data]
                if step["between"] and free:
                    v = free[s.integer(0, len(free) - 1)]
                else:
                    v = max(data) + s.integer(1, 3)
                fresh(v)
            numbers = sorted(data)
            if step["blank"]:
                v = numbers[s.integer(0, len(numbers) - 1)]
                f = step["blank"] if step["blank"] != "some" else "SAL"
                if step["blank"] == "some":
                    data[v][f] = np.array([np.nan, np.nan, 34.9])
                else:
                    data[v][f] = np.full(K, np.nan)
            columns = [numbers[i] for i in s.perm(len(numbers))] if step["mix"] else numbers
            savemat(source, {"PROFILE_NO": np.array([columns], dtype=float), "LAT": np.zeros((1, len(numbers))),
                             **{f: np.stack([data[v][f] for v in columns], axis=1) for f in ("SAL", "TEMP", "PRES", "PTMP")}})
            if model is not None and step["edit"]:
                # the operator edits the file
                labels.add("edit " + step["edit"])
                interesting = True
                have = sorted(model["flags"])
                order = have
                if step["edit"] == "flags":
                    a, b = sorted((s.integer(0, len(have)), s.integer(0, len(have))))
                    for i, v in enumerate(have):
                        model["flags"][v] = 1 if i < a else 2 if i < b else 0 if s.flag(.2) else 3
                elif step["edit"] == "settings":
                    n = len({f for f in model["flags"].values() if f}) or 1
                    model["max_breaks"] = np.array([[s.integer(-1, 4)]]) if s.flag(.5) else s.integers((n, 1), -1, 4)
                    model["breaks"] = np.zeros((0, 0)) if s.flag(.4) else np.sort(s.u((n, 2), 1, 50), axis=1)
                    if s.flag(.3) and model["breaks"].size:
                        model["breaks"][0, 1] = np.nan
                    model["use_percent_gt"] = np.array([[s.u(None, .1, 1)]])
                elif step["edit"] == "bounds":
                    for b in BOUNDS:
                        k = s.integer(0, 2)
                        model[b] = np.zeros((0, 0)) if k == 0 else s.u((1, k), 1, 20) if s.flag(.5) else s.u((k, 1), 1, 20)
                elif step["edit"] == "old":
                    model.pop("use_percent_gt")
                elif step["edit"] == "shuffle" and set(have) == set(numbers):
                    order = [have[i] for i in s.perm(len(have))]
                out = {k: v for k, v in model.items() if k != "flags"}
                out["calib_profile_no"] = np.array(order, dtype=float)
                out["calseries"] = np.array([model["flags"][v] for v in order], dtype=float)
                savemat(series, out)
            # the model of a run
            if model is None:
                model = {"flags": {v: 1 for v in numbers}, "breaks": np.zeros((0, 0)), "max_breaks": np.array([[4]]),
                         **{b: np.zeros((0, 0)) for b in BOUNDS}}
            if any(v not in model["flags"] for v in numbers):
                interesting = True
                labels.add("new profiles")
            model.setdefault("use_percent_gt", np.array([[.5]]))
            for b in BOUNDS:
                if model[b].size > 1:
                    model[b] = np.zeros((0, 0))
            for i, v in enumerate(numbers):
                if v not in model["flags"]:
                    model["flags"][v] = (model["flags"][numbers[i - 1]] if i else
                                         model["flags"][min(model["flags"])])
            for v in numbers:
                if any(np.isnan(data[v][f]).all() for f in ("SAL", "TEMP", "PRES")):
                    model["flags"][v] = 0
            with under_test("set_calseries"):
                for _ in range(2 if step["twice"] else 1):
                    before = open(source, "rb").read()
                    set_calseries(case["dir"], name, config)
                    require(open(source, "rb").read() == before, "the float file was modified")
                    got = loadmat(series)
                    close(np.ravel(got["calib_profile_no"]), numbers, "profile numbers", rtol=0, atol=0)
                    close(np.ravel(got["calseries"]), [model["flags"][v] for v in numbers], "flags", rtol=0, atol=0)
                    require(got["calseries"].shape == (1, len(numbers)), "flags have shape %s", got["calseries"].shape)
                    for k in BOUNDS + ("max_breaks", "use_percent_gt"):
                        close(np.ravel(got[k]), np.ravel(model[k]), k, rtol=0, atol=0)
                    if model["breaks"].size or got["breaks"].size:
                        close(got["breaks"], model["breaks"], "breaks", rtol=0, atol=0)
                    files = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs]
                    require(sorted(files) == sorted([source, series]), "files written: %s", sorted(files))
    finally:
        harness.drop_dir(root)
    return {"nontrivial": interesting, "labels": sorted(labels)}


SUBS = [Sub("history", 4800, 180000, cases, run)]
FINDINGS = {}
