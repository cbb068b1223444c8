"""P21: sal_var_plot, cal_sal_curve_plot."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import p14, p18
from vlib import dash, figs, harness
from vlib.harness import Sub, under_test, require, close

RULE = ("levels: a float of 2 to 9 profiles (ragged, inversions, missing and unmapped levels, profiles with nothing "
        "mapped or calibrated), mapped and calibrated data, any bounds, 1 to 10 levels plotted, in some cases exactly at levels of the profiles; the lines, error bars and "
        "bands on each figure when it is saved are compared with an independent interpolation. curve: calibrated, "
        "station and measured salinities with missing profiles, factors and errors. One or more other figures may be "
        "open. Non-trivial: a profile that reaches a plotted level and one that does not (levels); a profile without "
        "calibration among others (curve). dashboard: the same figures as plot_diagnostics makes them from the files of a "
        "calibrated float, whose columns may be in any order.")
ASSUMPTIONS = ["at least one level is chosen", "the drawing library draws what its artists hold", "ties between levels are not compared"]


def level_cases():
    return p18.world(n=st.sampled_from([5, 3, 9, 2]), wiggle=st.sampled_from([0.0, .6]), shown=st.integers(1, 10), bare=st.sampled_from([0, .2]), blank=st.sampled_from([0, .15]),
                     grid=st.booleans(), theta=st.sampled_from(["", "", "lt", "gt", "band", "outside"]),
                     pres=st.sampled_from(["", "", "", "lt", "gt", "outside", "band"]),
                     form=st.sampled_from(["list", "file"]), open=st.integers(0, 2), position=st.just(0), series=st.just(1),
                     exclude=st.just(0), fmt=st.sampled_from(["eps", "pdf", "png"]))


def usable(f):
    """levels that are mapped and inside the bounds"""
    def bound(v, lo, hi):
        if lo is not None and hi is not None and hi < lo:
            return ~((v > hi) & (v < lo))
        return ~((v < lo) if lo is not None else np.zeros(v.shape, bool)) & ~((v > hi) if hi is not None else np.zeros(v.shape, bool))
    return ~np.isnan(f.mptmp) & bound(f.ptmp, f.tgt, f.tlt) & bound(f.pres, f.pgt, f.plt)


def on_level(T, t):
    """(i, k, weight of k): nearest usable level and its neighbour across t; None where the level is not reached"""
    g = np.nonzero(~np.isnan(T))[0]
    if g.size == 0 or not T[g].min() < t < T[g].max():
        return None
    d = sorted((abs(T[i] - t), i) for i in g)
    if len(d) > 1 and d[1][0] - d[0][0] < 1e-9:
        raise p14.Tie()
    i = d[0][1]
    if T[i] == t:
        return i, i, 0.0
    side = [k for k in (i - 1, i + 1) if 0 <= k < len(T) and not np.isnan(T[k]) and (T[k] < T[i] if T[i] > t else T[k] > T[i])]
    if not side:
        return i, i, 0.0
    if len(side) == 2 and abs(abs(T[side[0]] - T[i]) - abs(T[side[1]] - T[i])) < 1e-12:
        raise p14.Tie()
    k = min(side, key=lambda k: abs(T[k] - T[i]))
    return i, k, (t - T[i]) / (T[k] - T[i])


def at(place, v):
    if place is None:
        return np.nan
    i, k, w = place
    if k != i and not np.isnan(v[i]) and not np.isnan(v[k]):
        return v[i] + w * (v[k] - v[i])
    return v[i]


def line(ax, label):
    found = [v for v in ax["lines"] if v[0] == label]
    require(len(found) == 1, "%s lines labelled %s", len(found), label)
    return found[0]


def bars(ax, x, mid, err, what, color=None):
    """the error bars of all finite points are drawn, and no others at those heights"""
    want = {(round(float(a), 6), round(float(b - e), 9), round(float(b + e), 9)) for a, b, e in zip(x, mid, err) if np.isfinite(b + e)}
    sets = [{(round(s[0, 0], 6), round(min(s[:, 1]), 9), round(max(s[:, 1]), 9)) for s in c} for c in ax["segments"]]

    def same(a, b):
        return len(a) == len(b) and all(any(abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) < 1e-7 and abs(p[2] - q[2]) < 1e-7 for q in b) for p in a)
    require(any(same(want, v) for v in sets), "%s: no error bars %s among %s", what, sorted(want), [sorted(v) for v in sets])


def expected_levels(f, cal, cerr, shown):
    """What the figures of the levels show: (temperatures, indices, {curve: shown x profiles}, errors, reached)"""
    n = f.ptmp.shape[1]
    t, index, _ = p14.reference(f.sal, f.ptmp, f.pres, f.mptmp, f.tlt, f.tgt, f.plt, f.pgt, f.case["percent"])
    T = np.where(usable(f), f.ptmp, np.nan)
    place = [[on_level(T[:, j], t[q]) if not np.isnan(t[q]) else None for j in range(n)] for q in range(shown)]
    mask = lambda v: np.where(np.isnan(T), np.nan, v)
    want = {k: np.array([[at(place[q][j], mask(v)[:, j]) for j in range(n)] for q in range(shown)])
            for k, v in (("float", f.sal), ("map", f.msal), ("cal", cal))}

    def together(v, e):
        """errors go with their values: interpolated where the value is"""
        out = np.full((shown, n), np.nan)
        for q in range(shown):
            for j in range(n):
                p = place[q][j]
                if p is not None:
                    i, k, w = p
                    both = k != i and not np.isnan(mask(v)[i, j]) and not np.isnan(mask(v)[k, j])
                    out[q, j] = e[i, j] + w * (e[k, j] - e[i, j]) if both else mask(e)[i, j]
        return out
    reached = np.array([[p is not None for p in row] for row in place])
    return t, index, want, (together(f.msal, f.merr), together(cal, cerr)), reached


def check_level(f, axes, q, t, want, errors):
    """One figure against what it has to show"""
    merr, werr = errors
    require(len(axes) == 1, "%s axes on the figure of level %s", len(axes), q + 1)
    ax = axes[0]
    tol = dict(rtol=0, atol=1e-9)
    for label, key in (("uncalibrated float", "float"), ("mapped salinity", "map"), ("calibrated float w/ 1xerr", "cal")):
        _, x, y, _ = line(ax, label)
        close(x, f.number, f"profile numbers of {label}", rtol=0, atol=0)
        close(y, want[key][q], f"{label} on level {q + 1}", **tol)
    named = [float(v) for v in re.findall(r"-?\d+(?:\.\d+)?(?:e-?\d+)?", ax["title"].replace("\u2212", "-"))]
    require(np.isnan(t[q]) or any(abs(v - t[q]) < 1e-4 for v in named), "the figure of level %s is titled %s", t[q], ax["title"])
    require(not np.isnan(t[q]) or all(np.isnan(v[2]).all() for v in ax["lines"]), "a curve on a level that does not exist")
    bars(ax, f.number, want["map"][q], merr[q], "mapped salinity on level %d" % (q + 1))
    good = np.isfinite(want["cal"][q] + werr[q])
    corners = np.concatenate([v for c in ax["polygons"] for v in c] + [np.zeros((0, 2))])
    for j in np.nonzero(good)[0]:
        for y in (want["cal"][q, j] - werr[q, j], want["cal"][q, j] + werr[q, j]):
            require(((np.abs(corners[:, 0] - f.number[j]) < 1e-9) & (np.abs(corners[:, 1] - y) < 1e-9)).any(),
                    "the band of the calibrated salinity of profile %s misses %s", f.number[j], y)
    for x, y in corners:
        j = np.nonzero(np.abs(f.number - x) < 1e-9)[0]
        require(j.size == 1 and good[j[0]] and abs(abs(y - want["cal"][q, j[0]]) - werr[q, j[0]]) < 1e-9, "the band has a corner at %s, %s", x, y)


def run_levels(case):
    from pyowc.plot.plots import sal_var_plot
    import matplotlib.pyplot as plt
    f = p18.Float(case)
    s = f.s
    K, n = f.ptmp.shape
    if case["grid"]:
        # the same pressures and temperatures in every profile: plotted levels coincide with profile levels
        p = np.arange(K)[:, None] * 150.0 + s.integer(1, 20) * 10
        f.pres = np.where(np.isnan(f.pres), np.nan, p)
        f.ptmp = np.where(np.isnan(f.ptmp), np.nan, np.round(64 * (18 - p / 200 + 4 * np.exp(-p / 500))) / 64)
        f.snap()
    else:
        f.ptmp = f.ptmp + case["wiggle"] * s.u((K, n), -1, 1)
    f.mptmp = np.where(np.isnan(f.mptmp), np.nan, f.ptmp)
    cal = f.sal + s.u(n, -.05, .05)
    cerr = s.u((K, n), .001, .02)
    gone = s.flags(n, case["bare"])
    cal[:, gone], cerr[:, gone] = np.nan, np.nan
    cerr[np.isnan(cal)] = np.nan
    blank = s.flags((K, n), case["blank"]) & ~np.isnan(f.msal)      # a mapped salinity outside 30 to 40 is blanked, its temperature stays
    f.msal[blank], f.merr[blank] = np.nan, np.nan
    try:
        t, _, want, errors, reached = expected_levels(f, cal, cerr, case["shown"])
    except p14.Tie:
        return {"nontrivial": False, "labels": ["tie"]}
    box = (lambda v: [] if v is None else [v]) if case["form"] == "list" else (lambda v: np.zeros((0, 0)) if v is None else np.array([[v]]))
    bounds = [box(f.tlt), box(f.tgt), box(f.plt), box(f.pgt), case["percent"] if case["form"] == "list" else np.array([[case["percent"]]])]
    root = harness.fresh_dir("plots")
    name = "59%05d" % s.integer(0, 99999)
    try:
        with figs.record() as saved, under_test("sal_var_plot"):
            for _ in range(case["open"]):
                plt.figure()
                plt.plot([1, 2], [3, 4], label="mapped salinity")
            sal_var_plot(case["shown"], f.sal.copy(), f.pres.copy(), f.ptmp.copy(), f.msal.copy(), f.merr.copy(), f.mptmp.copy(),
                         cal.copy(), cerr.copy(), bounds, f.number[None].copy(), name, {"FLOAT_PLOTS_DIRECTORY": root, "FLOAT_PLOTS_FORMAT": case["fmt"]})
            files(root, saved, name, case["fmt"], case["shown"])
            for q, (_, _, axes) in enumerate(saved):
                check_level(f, axes, q, t, want, errors)
    finally:
        harness.drop_dir(root)
    T = np.where(usable(f), f.ptmp, np.nan)
    exact = any((T == v).any() for v in t[:case["shown"]])
    return {"nontrivial": reached.any() and not reached.all(), "labels": ["on a profile level"] * exact + ["levels chosen %s" % ("ten" if not np.isnan(t).any() else "none" if np.isnan(t).all() else "fewer"),
                                                                          "theta " + case["theta"], "pres " + case["pres"]]}


def files(root, saved, name, fmt, count):
    require(len(saved) == count, "%s figures saved, expected %s", len(saved), count)
    paths = [os.path.normpath(v[0]) for v in saved]
    require(len(set(paths)) == count, "figures saved under the same name: %s", paths)
    for p, (_, f, _) in zip(paths, saved):
        base = os.path.basename(p)
        require(os.path.dirname(p) == os.path.normpath(root) and base.startswith(name) and base.endswith("." + fmt), "figure saved as %s", p)
        require(f in (None, fmt), "figure %s has format %s", p, f)
    found = sorted(os.path.join(d, q) for d, _, qs in os.walk(root) for q in qs)
    require(found == sorted(paths), "files written: %s", found)


def curve_cases():
    return p18.world(n=st.sampled_from([5, 3, 9, 2, 1]), bare=st.sampled_from([.2, 0, .5]), lost=st.sampled_from([0, .2]), open=st.integers(0, 2),
                     position=st.just(0), series=st.just(1), exclude=st.just(0), fmt=st.sampled_from(["eps", "pdf", "png"]))


def check_curve(f, axes, cal, cerr, sta, mean, factor, ferr):
    n = len(f.number)
    avg_of = lambda v: np.array([np.nan if np.isnan(v[:, j]).all() else np.mean(v[:, j][~np.isnan(v[:, j])]) for j in range(n)])
    avg, avge, avs = avg_of(cal - f.sal), avg_of(cerr), avg_of(sta - f.sal)
    require(len(axes) == 2, "%s axes on the calibration curve", len(axes))
    for ax, main, err, one, unity, what in ((axes[0], factor, ferr, mean, 1, "factor"), (axes[1], avg, avge, avs, 0, "offset")):
        full = [v for v in ax["lines"] if v[1].size == n and np.array_equal(v[1], f.number) and v[2].size == n]
        require(any(np.array_equal(np.isnan(v[2]), np.isnan(main)) and np.allclose(v[2], main, rtol=0, atol=1e-12, equal_nan=True) for v in full),
                "no curve of the %s %s", what, main.tolist())
        _, x, y, _ = line(ax, "1-1 profile fit")
        ok = np.isfinite(one)
        close(x[np.isfinite(y)], f.number[ok], f"profile numbers of the station {what}", rtol=0, atol=0)
        close(y[np.isfinite(y)], one[ok], f"station {what}", rtol=0, atol=1e-12)
        bars(ax, f.number, main, err, f"one error of the {what}")
        bars(ax, f.number, main, 2 * err, f"two errors of the {what}")
        require(any(v[1].size == 2 and (v[2] == unity).all() for v in ax["lines"]), "no reference line of the %s", what)


def run_curve(case):
    from pyowc.plot.plots import cal_sal_curve_plot
    import matplotlib.pyplot as plt
    f = p18.Float(case)
    s = f.s
    K, n = f.sal.shape
    factor, ferr = 1 + s.u(n, -1e-3, 1e-3), s.u(n, 1e-5, 1e-4)
    mean, rms = factor + s.u(n, -1e-4, 1e-4), s.u(n, 1e-5, 1e-4)
    gone, lost = s.flags(n, case["bare"]), s.flags(n, case["lost"])
    factor[gone], ferr[gone], mean[gone | lost], rms[gone | lost] = np.nan, np.nan, np.nan, np.nan
    cal, cerr = f.sal + 40 * (factor - 1) + .001 * s.normal((K, n)), 40 * ferr + s.u((K, n), 0, 1e-3) * np.where(np.isnan(f.sal), np.nan, 1)
    sta, serr = f.sal + 40 * (mean - 1), 40 * rms + s.u((K, n), 0, 1e-3)
    root = harness.fresh_dir("plots")
    name = "59%05d" % s.integer(0, 99999)
    some = np.isfinite(cal).any()
    try:
        with figs.record() as saved, under_test("cal_sal_curve_plot"):
            for _ in range(case["open"]):
                plt.figure()
                plt.plot([1, 2], [3, 4])
            cal_sal_curve_plot(f.sal.copy(), cal.copy(), cerr.copy(), sta.copy(), serr.copy(), mean[None].copy(), factor[None].copy(),
                               ferr[None].copy(), f.number[None].copy(), name, {"FLOAT_PLOTS_DIRECTORY": root, "FLOAT_PLOTS_FORMAT": case["fmt"]})
            files(root, saved, name, case["fmt"], 1 if some else 0)
            if some:
                check_curve(f, saved[0][2], cal, cerr, sta, mean, factor, ferr)
    finally:
        harness.drop_dir(root)
    return {"nontrivial": np.isfinite(factor).any() and np.isnan(factor).any(), "labels": ["drawn" if some else "nothing to draw"]}


# -- dashboard

def run_dashboard(case):
    try:
        d = dash.Dash(case)
        f = d.f
        if not d.drawable:
            return {"nontrivial": False, "labels": ["nothing to draw"]}
        v = {k: np.asarray(d.got[k], dtype=float) for k in ("cal_SAL", "cal_SAL_err", "sta_SAL", "sta_mean", "pcond_factor", "pcond_factor_err")}
        try:
            t, _, want, errors, reached = expected_levels(f, v["cal_SAL"], v["cal_SAL_err"], case["shown"])
        except p14.Tie:
            return {"nontrivial": False, "labels": ["tie"]}
        for q in range(case["shown"]):
            check_level(f, d.figure("variance_%d." % (q + 1)), q, t, want, errors)
        if np.isfinite(v["cal_SAL"]).any():
            check_curve(f, d.figure("curve"), v["cal_SAL"], v["cal_SAL_err"], v["sta_SAL"], v["sta_mean"][0], v["pcond_factor"][0], v["pcond_factor_err"][0])
    finally:
        if "d" in locals():
            d.close()
    return {"nontrivial": reached.any() and not reached.all(), "labels": [case["model"], "columns " + case["order"]]}


SUBS = [Sub("levels", 640, 16000, level_cases, run_levels),
        Sub("curve", 480, 12000, curve_cases, run_curve),
        Sub("dashboard", 25, 400, dash.cases, run_dashboard)]
FINDINGS = {}
