"""P22: sal_anom_plot, theta_sal_plot, t_s_profile_plot and plot_diagnostics."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import p14, p18
from vlib import dash, figs, harness, world as W
from vlib.harness import Sub, under_test, require, close

RULE = ("anomaly: a float of 2 to 9 profiles (ragged, inversions, repeated temperatures, missing salinities, whole profiles "
        "missing), drawn uncalibrated and calibrated for one to three ranges; profiles: temperature-salinity curves of up to 31 "
        "profiles with mapped data, and profile plots, with the levels chosen by find_10thetas; dashboard: all of them by "
        "plot_diagnostics from the files of a calibrated float, whose columns may be in any order. What is on each figure when "
        "it is saved is compared with an independent computation. Non-trivial: a profile with fewer than three levels, a "
        "repeated temperature or a missing value (anomaly); a chosen level in one profile that another does not reach "
        "(profiles); shuffled columns, an excluded or an unmapped profile (dashboard).")
ASSUMPTIONS = ["at least two profiles, one of them with three levels", "levels with the same temperature have the same salinity",
               "the drawing library draws what its artists hold"]


def anomaly(sal, ptmp, y):
    n = sal.shape[1]
    on = np.full((len(y), n), np.nan)
    for j in range(n):
        pts = sorted({(float(t), float(v)) for t, v in zip(ptmp[:, j], sal[:, j]) if not np.isnan(t) and not np.isnan(v)})
        if len(pts) < 3:
            continue
        for a, b in zip(pts, pts[1:]):
            inside = (y >= a[0]) & (y <= b[0])
            on[inside, j] = a[1] + (b[1] - a[1]) * (y[inside] - a[0]) / (b[0] - a[0])
    out = np.full(on.shape, np.nan)
    for q in range(len(y)):
        row = np.sort(on[q][~np.isnan(on[q])])
        if row.size:
            k = row.size
            out[q] = on[q] - (row[(k - 1) // 2] + row[k // 2]) / 2
    return out


def check_anomaly(axes, number, sal, ptmp, bounds):
    drawn = [v for v in axes if v["contours"]]
    require(len(drawn) == 1, "%s axes with contours", len(drawn))
    ax = drawn[0]
    require(np.allclose(ax["ylim"], bounds), "temperatures drawn %s, asked for %s", ax["ylim"], bounds)
    filled = [v for v in ax["contours"] if v[0] == "filled"]
    require(filled, "no filled contours")
    for _, x, y, z, _ in ax["contours"]:
        close(x, number, "profile numbers of the anomaly", rtol=0, atol=0)
        require(y.ndim == 1 and (np.diff(y) > 0).all() and np.diff(y).max() < .1001 and y[0] < .1001 and y[-1] > 29.9,
                "temperatures of the anomaly: %s", y)
        # (a temperature that is a level's own, up to rounding, may be taken as inside or outside)
        edge = np.abs(y[:, None] - np.concatenate([np.nanmin(ptmp, axis=0), np.nanmax(ptmp, axis=0)])).min(axis=1) < 1e-9 if ptmp.size else 0
        keep = ~np.asarray(edge)
        want = anomaly(sal, ptmp, y)
        close(z[keep], want[keep], "salinity anomaly", rtol=0, atol=1e-9)
        # every anomaly is coloured, however large
        v = want[np.isfinite(want)]
        seen = np.zeros(v.shape, dtype=bool)
        for *_, (low, high) in filled:
            seen |= (v >= low - 1e-9) & (v <= high + 1e-9)
        require(seen.all(), "anomalies left without a colour: %s", v[~seen][:5].tolist())
    for low, high, (r, _, b, _) in ax["bands"]:
        require(low < .05 or r > b, "anomalies of %s to %s are blue", low, high)
        require(high > -.05 or b > r, "anomalies of %s to %s are red", low, high)


def expect_files(root, saved, name, fmt, count):
    from checks import p21
    p21.files(root, saved, name, fmt, count)


def anomaly_cases():
    return p18.world(n=st.sampled_from([5, 3, 9, 2]), wiggle=st.sampled_from([0.0, .6]), repeat=st.sampled_from([0, .3]), bare=st.sampled_from([0, .25]),
                     lost=st.sampled_from([0, .15]), open=st.integers(0, 1), position=st.just(0), series=st.just(1), exclude=st.just(0),
                     bounds=st.sampled_from([[[0, 5], [5, 20]], [[2.5, 12]], [[0, 30], [1, 3], [-1.5, 9]]]),
                     fmt=st.sampled_from(["eps", "pdf", "png"]), slash=st.booleans())


def run_anomaly(case):
    from pyowc.plot.plots import sal_anom_plot
    import matplotlib.pyplot as plt
    f = p18.Float(case)
    s = f.s
    K, n = f.ptmp.shape
    ptmp = f.ptmp + case["wiggle"] * s.u((K, n), -1, 1)
    sal = f.sal.copy()
    again = s.flags((K, n), case["repeat"])
    rows = s.integers(n, 0, K - 1)
    for j in range(n):
        for i in np.nonzero(again[:, j])[0]:
            ptmp[i, j], sal[i, j] = ptmp[rows[j], j], sal[rows[j], j]
    lost = s.flags((K, n), case["lost"])
    for j in range(n):
        for i in np.nonzero(lost[:, j])[0]:
            sal[ptmp[:, j] == ptmp[i, j], j] = np.nan       # (all levels of that temperature)
    gone = s.flags(n, case["bare"])
    ptmp[:, gone & s.flags(n, .5)] = np.nan
    cal = np.where(gone, np.nan, sal + s.u(n, -.1, .1))
    enough = lambda v: (np.isfinite(v) & np.isfinite(ptmp)).sum(axis=0).max() >= 6
    if not enough(sal) or not enough(cal):
        return {"nontrivial": False, "labels": ["too few levels"]}
    root = harness.fresh_dir("plots")
    name = "59%05d" % s.integer(0, 99999)
    c = {"FLOAT_PLOTS_DIRECTORY": root + os.sep * case["slash"], "FLOAT_PLOTS_FORMAT": case["fmt"], "THETA_BOUNDS": [list(v) for v in case["bounds"]]}
    try:
        with figs.record() as saved, under_test("sal_anom_plot"):
            for _ in range(case["open"]):
                plt.figure()
                plt.contourf([[1, 2], [3, 4]])
            sal_anom_plot(sal.copy(), ptmp.copy(), f.number[None].copy(), c, name)
            sal_anom_plot(cal.copy(), ptmp.copy(), f.number[None].copy(), c, name, "calibrated")
            k = len(case["bounds"])
            expect_files(root, saved, name, case["fmt"], 2 * k)
            for i, (path, _, axes) in enumerate(saved):
                require(("uncalibrated" in os.path.basename(path)) == (i < k), "figure named %s", path)
                check_anomaly(axes, f.number, sal if i < k else cal, ptmp, case["bounds"][i % k])
    finally:
        harness.drop_dir(root)
    few = (np.isfinite(sal) & np.isfinite(ptmp)).sum(axis=0) < 3
    return {"nontrivial": few.any() or again.any() or lost.any() or gone.any(),
            "labels": ["repeats"] * bool(again.any()) + ["inversions"] * (case["wiggle"] > 0) + ["a profile left out"] * bool(few.any() or gone.any())}


# -- curves and profiles

def curve(ax, x, y):
    """lines that hold exactly these points (missing ones left out)"""
    def pts(a, b):
        ok = np.isfinite(a) & np.isfinite(b)
        return np.array([a[ok], b[ok]])
    want = pts(x, y)
    return [v for v in ax["lines"] if v[1].shape == v[2].shape and pts(v[1], v[2]).shape == want.shape and np.allclose(pts(v[1], v[2]), want, rtol=0, atol=1e-9)]


def check_theta_sal(axes, number, sal, ptmp, msal, mptmp, merr, index):
    require(len(axes) == 1, "%s axes on the temperature-salinity figure", len(axes))
    ax = axes[0]
    shown = []
    marks = 0
    for j in range(len(number)):
        found = curve(ax, sal[:, j], ptmp[:, j])
        blank = not np.isfinite(sal[:, j] + ptmp[:, j]).any()
        require(found or blank, "no curve of profile %s", number[j])
        labels = [v[0] for v in found if not str(v[0]).startswith("_")]
        if not blank:
            require(len(found) == 1, "%s curves of profile %s", len(found), number[j])
            for text in labels:
                require(float(text) == number[j], "profile %s is labelled %s", number[j], text)
            shown += labels
        colour = None if blank else tuple(np.ravel(found[0][3]))
        for i in {int(v) for v in index[:, j] if not np.isnan(v)}:
            m = curve(ax, np.array([msal[i, j]]), np.array([mptmp[i, j]]))
            m = [v for v in m if v[1].size == 1]
            require(m, "the mapped salinity of profile %s at level %s is not marked", number[j], i)
            require(colour is None or any(tuple(np.ravel(v[3])) == colour for v in m), "a mark of profile %s has another colour than its curve", number[j])
            seg = [v for c in ax["segments"] for v in c]
            lo, hi = msal[i, j] - merr[i, j], msal[i, j] + merr[i, j]
            require(any(np.allclose(v[:, 1], mptmp[i, j], rtol=0, atol=1e-9) and np.allclose(np.sort(v[:, 0]), (lo, hi), rtol=0, atol=1e-9) for v in seg),
                    "no bar of the mapped salinity of profile %s at level %s", number[j], i)
            marks += 1
    drawn = [v for v in ax["lines"] if v[1].size == 1 and np.isfinite(v[1]).all() and np.isfinite(v[2]).all()]
    require(len({(round(float(v[1][0]), 9), round(float(v[2][0]), 9)) for v in drawn}) <= marks, "more marks than chosen levels")
    require(len(shown) <= 31, "%s profiles on the legend", len(shown))


def level_lines(ax):
    return sorted(float(v[2][0]) for v in ax["lines"] if v[1].size == 2 and v[2].size == 2 and np.array_equal(v[1], [0, 1]) and v[2][0] == v[2][1])


def check_profiles(axes, sal, ptmp, pres, var, theta, t, p):
    require(len(axes) == 4, "%s axes on the profile plots", len(axes))
    n = sal.shape[1]
    for x, y, levels, what in ((sal, ptmp, t, "salinity and temperature"), (ptmp, -pres, -p, "temperature and pressure"),
                               (sal, -pres, -p, "salinity and pressure"), (var[:, None], theta[:, None], t, "variance on temperature levels")):
        some = [j for j in range(x.shape[1]) if np.isfinite(x[:, j] + y[:, j]).sum() > 1]
        at = [ax for ax in axes if all(curve(ax, x[:, j], y[:, j]) for j in some)] if some else axes
        require(at, "the plot of %s lacks profiles", what)
        want = np.sort(levels[np.isfinite(levels)])
        require(any(len(g) == len(want) and np.allclose(g, want, rtol=0, atol=1e-9) for g in
                    ([v for v in level_lines(ax) if np.isfinite(v)] for ax in at)), "the plot of %s does not mark the levels %s", what, want.tolist())


def profile_cases():
    return p18.world(n=st.sampled_from([5, 3, 9, 31, 4, 6, 1]), wiggle=st.sampled_from([0.0, .6]), open=st.integers(0, 1), bare=st.sampled_from([0, .2]),
                     position=st.just(0), series=st.just(1), exclude=st.just(0), fmt=st.sampled_from(["eps", "pdf", "png"]))


def run_profiles(case):
    from pyowc.plot.plots import theta_sal_plot, t_s_profile_plot
    from pyowc.core.finders import find_10thetas
    import matplotlib.pyplot as plt
    f = p18.Float(case)
    s = f.s
    K, n = f.ptmp.shape
    f.ptmp = f.ptmp + case["wiggle"] * s.u((K, n), -1, 1)
    f.mptmp = np.where(np.isnan(f.mptmp), np.nan, f.ptmp)
    try:
        t, index, _ = p14.reference(f.sal, f.ptmp, f.pres, f.mptmp, f.tlt, f.tgt, f.plt, f.pgt, case["percent"])
    except p14.Tie:
        return {"nontrivial": False, "labels": ["tie"]}
    box = lambda v: np.zeros((0, 0)) if v is None else np.array([[v]])
    cal = np.where(s.flags(n, case["bare"]), np.nan, f.sal + s.u(n, -.05, .05))
    root = harness.fresh_dir("plots")
    name = "59%05d" % s.integer(0, 99999)
    c = {"FLOAT_PLOTS_DIRECTORY": root, "FLOAT_PLOTS_FORMAT": case["fmt"]}
    try:
        with figs.record() as saved, under_test("theta_sal_plot and t_s_profile_plot"):
            levels = find_10thetas(f.sal.copy(), f.ptmp.copy(), f.pres.copy(), f.mptmp.copy(), box(f.tlt), box(f.tgt), box(f.plt), box(f.pgt), case["percent"])
            tl, pl, _, var, theta = (np.asarray(v, dtype=float) for v in levels)
            for _ in range(case["open"]):
                plt.figure()
                plt.plot([1, 2], [3, 4])
            for v, title in ((f.sal, "uncalibrated"), (cal, "calibrated")):
                theta_sal_plot(v.T.copy(), f.ptmp.T.copy(), f.msal.copy(), f.mptmp.copy(), f.merr.copy(), levels[2], f.number.copy(), c, name, title)
            t_s_profile_plot(f.sal.copy(), f.ptmp.copy(), f.pres.copy(), levels[3], levels[4], levels[0], levels[1], name, c)
            expect_files(root, saved, name, case["fmt"], 3)
            close(np.ravel(tl), t, "levels", rtol=1e-9)
            check_theta_sal(saved[0][2], f.number, f.sal, f.ptmp, f.msal, f.mptmp, f.merr, index)
            check_theta_sal(saved[1][2], f.number, cal, f.ptmp, f.msal, f.mptmp, f.merr, index)
            check_profiles(saved[2][2], f.sal, f.ptmp, f.pres, np.ravel(var), np.ravel(theta), np.ravel(tl), np.ravel(pl))
    finally:
        harness.drop_dir(root)
    on = ~np.isnan(index)
    return {"nontrivial": bool((on.any(axis=1) & ~on.all(axis=1)).any()),
            "labels": ["%s profiles" % ("30 or fewer" if n <= 30 else "more than 30"), "levels" if on.any() else "no levels"]}


# -- dashboard

def run_dashboard(case):
    try:
        d = dash.Dash(case)
        f = d.f
        if not d.drawable:
            return {"nontrivial": False, "labels": ["nothing to draw"]}
        try:
            t, index, _ = p14.reference(f.sal, f.ptmp, f.pres, f.mptmp, f.tlt, f.tgt, f.plt, f.pgt, case["percent"])
        except p14.Tie:
            return {"nontrivial": False, "labels": ["tie"]}
        cal = np.asarray(d.got["cal_SAL"], dtype=float)
        some = np.isfinite(cal).any()
        number = d.f.number
        for title, v in (("_uncalibrated", f.sal), ("_calibrated", cal)):
            check_theta_sal(d.figure(title, "theta_sal"), number, v, f.ptmp, f.msal, f.mptmp, f.merr, index)
            for b in case["bounds"]:
                check_anomaly(d.figure(title, "anomaly", str(list(b))), number, v, f.ptmp, b)
        from pyowc.core.finders import find_10thetas
        box = lambda v: np.zeros((0, 0)) if v is None else np.array([[v]])
        with under_test("find_10thetas"):
            tl, pl, _, var, theta = (np.asarray(v, dtype=float) for v in find_10thetas(
                f.sal.copy(), f.ptmp.copy(), f.pres.copy(), f.mptmp.copy(), box(f.tlt), box(f.tgt), box(f.plt), box(f.pgt), case["percent"]))
        check_profiles(d.figure("_salinity_profile"), f.sal, f.ptmp, f.pres, np.ravel(var), np.ravel(theta), np.ravel(tl), np.ravel(pl))
        count = 1 + 2 + 2 * len(case["bounds"]) + bool(some) + case["shown"] + 1
        expect_files(d.plots, d.saved, W.FLOAT, case["fmt"], count)
        require(d.new == {os.path.normpath(v[0]) for v in d.saved}, "files written: %s", sorted(d.new))
    finally:
        if "d" in locals():
            d.close()
    return {"nontrivial": case["order"] != "up" or not d.good.any(axis=0).all() or (f.flags == 0).any(),
            "labels": [case["model"], "columns " + case["order"], "calibrated" if some else "not calibrated"]}


SUBS = [Sub("anomaly", 160, 5000, anomaly_cases, run_anomaly),
        Sub("profiles", 100, 3000, profile_cases, run_profiles),
        Sub("dashboard", 25, 400, dash.cases, run_dashboard)]
FINDINGS = {}
