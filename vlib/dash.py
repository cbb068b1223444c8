"""A calibrated float and the figures that plot_diagnostics makes of it."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import p18
from vlib import figs, harness, maps, world as W
from vlib.gen import Stream
from vlib.harness import quiet, under_test, require


def cases(**extra):
    d = dict(n=st.sampled_from([5, 3, 8, 2, 33]), model=st.sampled_from(["line", "offset", "open"]), shown=st.sampled_from([2, 1, 10]),
             exclude=st.sampled_from([0, .2]), open=st.sampled_from([0, 2]), fmt=st.sampled_from(["png", "eps", "pdf"]), seps=st.booleans(),
             bounds=st.sampled_from([[[0, 5], [5, 20]], [[2.5, 12]], [[0, 30], [1, 3], [-1.5, 9]]]))
    d.update(extra)
    return p18.world(**d)


class Dash:
    """f, saved figures (path, format, axes) and the calibration file"""

    def __init__(self, case, render=False):
        import matplotlib.pyplot as plt
        from pyowc.plot.dashboard import plot_diagnostics
        f = self.f = p18.Float(case)
        f.max_breaks = np.array([[{"line": 0.0, "offset": -1.0, "open": 2.0}[case["model"]]]])
        self.root = root = harness.fresh_dir("dash")
        self.good = ~np.isnan(f.mptmp)
        self.drawable = (np.isfinite(f.ptmp) & np.isfinite(f.sal)).sum(axis=0).max() >= 3 and self.good.any()
        if not self.drawable:
            return
        with quiet():
            c = self.c = f.write(root)
            self.shapes = maps.write(os.path.join(root, "const"), Stream(case["raw"]), float(np.nanmean(f.lon)), float(np.nanmean(f.lat)))
        c["THETA_BOUNDS"] = [list(v) for v in case["bounds"]]
        c["FLOAT_PLOTS_FORMAT"] = case["fmt"]
        if case["seps"]:
            c["FLOAT_PLOTS_DIRECTORY"] = c["FLOAT_PLOTS_DIRECTORY"].rstrip(os.sep)
        with quiet():
            try:
                self.got = p18.calibrate(f, root, c)
            except Exception:       # (P18's business)
                self.drawable = False
                return
        keep = {k: repr(v) for k, v in c.items()}
        before = {os.path.join(d, q) for d, _, qs in os.walk(root) for q in qs}
        self.plots = os.path.join(root, "plots")
        with figs.record(render) as saved, under_test("plot_diagnostics"):
            for _ in range(case["open"]):
                plt.figure()
                plt.plot([1, 2], [3, 4])
            plot_diagnostics(W.DIR, W.FLOAT, c, levels=case["shown"])
        self.saved = saved
        require({k: repr(v) for k, v in c.items()} == keep, "the configuration was changed")
        self.new = {os.path.join(d, q) for d, _, qs in os.walk(root) for q in qs} - before

    def figure(self, *words):
        """the one figure whose file name holds all the words"""
        found = [v for v in self.saved if all(w in os.path.basename(v[0]) for w in words)]
        require(len(found) == 1, "%s figures named %s: %s", len(found), words, [v[0] for v in self.saved])
        return found[0][2]

    def close(self):
        harness.drop_dir(self.root)
