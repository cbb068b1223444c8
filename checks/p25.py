"""P25: trajectory_plot, create_dataframe."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import dash, figs, harness, maps
from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("plot: trajectory_plot on 1 to 12 profiles (some without position) and 1 to 60 reference positions, with synthetic "
        "coastline, bathymetry and reef files (shapes of several parts), each asked for or not, other figures open or not. "
        "dashboard: the trajectory that plot_diagnostics draws from the files of a calibrated float, columns in any order, "
        "longitudes astride Greenwich or the date line. What is on the figure when it is saved is compared with the files. "
        "Non-trivial: shapes of more than one part (plot); profiles west of Greenwich, at the date line or shuffled (dashboard).")
ASSUMPTIONS = ["the drawing library draws what its artists hold", "something was mapped, so that there are reference positions"]


def named(ax, label):
    found = [v for v in ax["lines"] if v[0] == label]
    require(len(found) == 1, "%s lines labelled %s", len(found), label)
    return found[0]


def check(axes, number, lon, lat, hist_lon, hist_lat, wanted, modulo=False):
    """wanted: shapes that must be drawn, each a list of parts"""
    require(len(axes) == 1, "%s axes on the trajectory", len(axes))
    ax = axes[0]

    def lons(got, want, what):
        require(got.shape == want.shape, "%s: %s positions, expected %s", what, got.shape, want.shape)
        d = got - want
        if modulo:
            require(((got >= -180) & (got <= 180) | np.isnan(got)).all(), "%s: longitudes %s", what, got.tolist())
            d = (d + 180) % 360 - 180
        close(d, np.where(np.isnan(want), np.nan, 0.0), what, atol=1e-6)
    _, x, y, _ = named(ax, "Float Profiles")
    lons(x, lon, "longitudes of the float")
    close(y, lat, "latitudes of the float", rtol=0, atol=1e-9)
    _, x, y, _ = named(ax, "Climatology")
    order = np.lexsort((np.round(hist_lat, 6), np.round(hist_lon % 360, 6)))
    got = np.lexsort((np.round(y, 6), np.round(x % 360, 6)))
    require(len(order) == len(got), "%s reference positions drawn, %s used", len(got), len(order))
    lons(x[got], hist_lon[order], "longitudes of the reference data")
    close(y[got], hist_lat[order], "latitudes of the reference data", rtol=0, atol=1e-6)
    for lim, vals, what in ((ax["xlim"], x, "longitude"), (ax["ylim"], y, "latitude")):
        require((vals >= min(lim)).all() and (vals <= max(lim)).all(), "reference data outside the %ss drawn %s", what, lim)
    for lim, vals, what in ((ax["xlim"], named(ax, "Float Profiles")[1], "longitude"), (ax["ylim"], lat, "latitude")):
        vals = vals[np.isfinite(vals)]
        require((vals >= min(lim)).all() and (vals <= max(lim)).all(), "a profile outside the %ss drawn %s: %s", what, lim, vals.tolist())
    texts = {}
    for text, xy in ax["texts"]:
        try:
            texts.setdefault(float(text), []).append(xy)
        except ValueError:
            pass
    n = len(number)
    for j in range(n):
        if j % 3 == 0 or j == n - 1:
            require(number[j] in texts, "profile %s is not annotated", number[j])
    for v, places in texts.items():
        j = np.nonzero(number == v)[0]
        require(j.size == 1, "annotation %s is no profile", v)
        require(j[0] % 3 == 0 or j[0] == n - 1, "profile %s is annotated", v)
        for px, py in places:
            if np.isfinite(lon[j[0]]) and np.isfinite(lat[j[0]]):
                d = (px - lon[j[0]] + 180) % 360 - 180 if modulo else px - lon[j[0]]
                require(abs(d) < 1e-6 and abs(py - lat[j[0]]) < 1e-9, "profile %s is annotated at %s", v, (px, py))
    drawn = [parts_of(p) for p in ax["paths"]]
    left = list(drawn)
    for shape in wanted:
        hit = [i for i, p in enumerate(left) if same_shape(p, shape)]
        require(hit, "a shape is not drawn: %s", shape)
        left.pop(hit[0])
    require(not left, "%s shapes drawn that are in no file", len(left))


def parts_of(path):
    v, codes = path
    if codes is None:
        return [v]
    cut = [i for i in range(len(codes)) if codes[i] == 1] + [len(codes)]
    return [v[a:b] for a, b in zip(cut, cut[1:])]


def same_shape(parts, shape):
    return len(parts) == len(shape) and all(len(p) == len(q) and np.allclose(p, q, rtol=0, atol=1e-9) for p, q in zip(parts, shape))


def shapes(d, bath, reef):
    return d["coastline"] + (sum((d[k] for k in maps.DEPTHS), []) if bath else []) + (d["reefs"] if reef else [])


def plot_cases():
    return st.fixed_dictionaries({"raw": raw(400), "n": st.sampled_from([4, 1, 7, 12, 2]), "hist": st.sampled_from([20, 1, 60]),
                                  "lost": st.sampled_from([0, 0, .3]), "bath": st.booleans(), "reef": st.booleans(), "open": st.integers(0, 2),
                                  "far": st.booleans(), "slash": st.booleans(), "fmt": st.sampled_from(["png", "pdf", "eps"])})


def run_plot(case):
    import matplotlib.pyplot as plt
    from pyowc.plot.plots import trajectory_plot
    from pyowc.plot.utils import create_dataframe
    s = Stream(case["raw"])
    n, m = case["n"], case["hist"]
    x0, y0 = s.u(None, -160, 160), s.u(None, -60, 60)
    number = np.cumsum(s.integers(n, 1, 4)).astype(float)
    lon, lat = x0 + s.u(n, -5, 5), y0 + s.u(n, -4, 4)
    lost = s.flags(n, case["lost"])
    lost[0] &= n > 1
    lon[lost], lat[lost] = np.nan, np.nan
    hist = np.array([x0 + s.u(m, -12, 12), y0 + s.u(m, -9, 9), 1 + np.arange(m) % n]).T
    if case["far"]:
        hist[:, 0] += (14 if x0 < 0 else -14)
    root = harness.fresh_dir("map")
    const, plots = os.path.join(root, "const"), os.path.join(root, "plots")
    os.makedirs(plots)
    try:
        d = maps.write(const, s, x0, y0)
        c = {"CONFIG_DIRECTORY": const, "FLOAT_PLOTS_DIRECTORY": plots + os.sep * case["slash"], "FLOAT_PLOTS_FORMAT": case["fmt"]}
        with figs.record() as saved, under_test("trajectory_plot"):
            for _ in range(case["open"]):
                plt.figure()
                plt.plot([1, 2], [3, 4], label="Climatology")
            grid, floats = create_dataframe({"selected_hist": hist.copy()}, {"LAT": lat[None].copy(), "LONG": lon[None].copy(), "PROFILE_NO": number[None].copy()})
            trajectory_plot(int(case["bath"]), int(case["reef"]), floats, grid, "5900123", c)
            require(len(saved) == 1, "%s figures saved", len(saved))
            path, fmt, axes = saved[0]
            require(os.path.dirname(os.path.normpath(path)) == plots and os.path.basename(path).startswith("5900123") and path.endswith("." + case["fmt"]), "saved as %s", path)
            require(fmt in (None, case["fmt"]), "format %s", fmt)
            check(axes, number, lon, lat, hist[:, 0], hist[:, 1], shapes(d, case["bath"], case["reef"]))
    finally:
        harness.drop_dir(root)
    return {"nontrivial": any(len(p) > 1 for p in shapes(d, case["bath"], case["reef"])),
            "labels": ["bathymetry"] * case["bath"] + ["reefs"] * case["reef"] + ["a profile without position"] * bool(lost.any()) + ["float away from the data"] * case["far"]}


def run_dashboard(case):
    try:
        d = dash.Dash(case)
        if not d.drawable:
            return {"nontrivial": False, "labels": ["nothing to draw"]}
        f = d.f
        k = np.nonzero(d.good.any(axis=0))[0]
        check(d.figure("trajectory"), f.number, f.lon, f.lat, f.lon[k], f.lat[k], shapes(d.shapes, True, False), modulo=True)
    finally:
        if "d" in locals():
            d.close()
    return {"nontrivial": bool((f.lon > 180).any()) or case["where"] in ("greenwich", "dateline") or case["order"] != "up",
            "labels": [case["where"], "columns " + case["order"]]}


SUBS = [Sub("plot", 480, 12000, plot_cases, run_plot),
        Sub("dashboard", 25, 400, lambda: dash.cases(n=st.sampled_from([5, 3, 8, 2]), bounds=st.just([[0, 20]]), shown=st.just(1)), run_dashboard)]
FINDINGS = {}
